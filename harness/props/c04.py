import colmix


def run(ctx):
    colmix.model(ctx, ['insert', 'drop', 'load', 'map'], limit=ctx.pick(100, 3000),
                 depth=3, first=['insert'])
    mix = {'list': 5, 'load': 2, 'iload': 2, 'map': 2, 'update': 1.5, 'drop': 1.5, 'validate': 1,
           'insert': 1.5, 'copy': .7}
    colmix.run(ctx, mix, ctx.pick(150, 1500), length=(5, 10),
               opts={'insert': {'omit': 0}})
