import colmix


def run(ctx):
    colmix.model(ctx, ['insert', 'drop'], limit=ctx.pick(220, 8000),
                 depth=ctx.pick(2, 3), tail=[dict(op='load', filter=['all'], chosen=[])])
    mix = {'insert': 6, 'drop': 2, 'load': 3, 'iload': .7, 'reopen': 1, 'list': 1}
    colmix.run(ctx, mix, ctx.pick(180, 1800), length=(4, 10),
               opts={'insert': {'bad': .15}})
