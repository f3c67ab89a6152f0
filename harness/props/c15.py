import colmix


def run(ctx):
    mix = {'damage': 3, 'validate': 6, 'list': .5, 'load': 1.5}
    colmix.run(ctx, mix, ctx.pick(250, 2500), length=(4, 9),
               first=('insert', 'insert', 'damage', 'validate'), label='damages')
