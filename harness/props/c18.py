import colmix


def run(ctx):
    colmix.model(ctx, ['insert', 'drop', 'load', 'dropvar'],
                 limit=ctx.pick(80, 3000), depth=3, first=['insert'])
    mix = {'insert': 3, 'load': 2, 'map': 2, 'update': 2, 'drop': .7, 'dropvar': .7,
           'addvar': .5, 'reopen': .7, 'copy': .4}
    colmix.run(ctx, mix, ctx.pick(150, 1500), length=(5, 9), imm=1.0,
               opts={'insert': {'bad': .1}, 'dropvar': {'bad': .7}, 'addvar': {'bad': .5}})
