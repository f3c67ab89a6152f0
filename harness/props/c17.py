import colmix
import viewmix


def run(ctx):
    colmix.model(ctx, ['insert', 'map'], limit=ctx.pick(80, 2000), depth=3,
                 first=['insert'])
    mix = {'map': 8, 'insert': 2, 'drop': .7, 'addvar': .3, 'update': .3}
    colmix.run(ctx, mix, ctx.pick(110, 1500), length=(5, 9),
               opts={'addvar': {'bad': 0}})
    viewmix.run(ctx, {'vmap': 8, 'insert': 1.5, 'vsync': 1.5, 'drop': .4, 'vupdate': .5,
                      'vadd': .3}, ctx.pick(80, 1000), length=(5, 9))
