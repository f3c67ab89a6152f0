import colmix


def run(ctx):
    colmix.model(ctx, ['insert', 'drop', 'copy'], limit=ctx.pick(60, 3000), depth=3,
                 first=['insert'])
    mix = {'copy': 2, 'load': 2, 'insert': 2, 'update': 1, 'drop': 1, 'addvar': .5,
           'dropvar': .5, 'reopen': 1, 'list': .3, 'map': .3}
    opts = {'addvar': {'bad': .1}, 'dropvar': {'bad': .1}}
    # changes to either side after the copy
    colmix.run(ctx, mix, ctx.pick(110, 1100), length=(4, 9), first=('insert', 'copy'),
               label='changes to both sides', imm=.5, on_copy=.55, opts=opts)
    colmix.run(ctx, mix, ctx.pick(50, 500), length=(3, 7), first=('copy', ),
               label='copy of an empty collection', imm=.5, on_copy=.7, opts=opts)
