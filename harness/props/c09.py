import colmix
import crashmix


def run(ctx):
    colmix.model(ctx, ['insert', 'addvar', 'dropvar', 'reopen'],
                 limit=ctx.pick(120, 5000), depth=3,
                 tail=[dict(op='load', filter=['all'], chosen=[])])
    mix = {'addvar': 3.5, 'addset': 1, 'dropvar': 3, 'insert': 2, 'update': 1, 'load': 1.5, 'reopen': 1,
           'drop': .7}
    colmix.run(ctx, mix, ctx.pick(110, 1100), length=(5, 10), first=())
    colmix.run(ctx, mix, ctx.pick(90, 900), length=(4, 9), label='populated first')
    for op in ('add', 'drop'):
        ctx.model('MCSchemaChange', consts={'Op': f'"{op}"', 'Parts': ctx.pick(
            '{1, 2, 3}', '{1, 2, 3, 4, 5, 6}')})
    crashmix.fail(ctx, ['addvar', 'dropvar'], ctx.pick(14, 200), ctx.pick(10, 40))
