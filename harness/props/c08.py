import colmix
import crashmix
import gen


def run(ctx):
    colmix.model(ctx, ['insert', 'update'], limit=ctx.pick(100, 3000),
                 depth=2, first=['insert'])
    mix = {'update': 6, 'insert': 1.5, 'load': 1, 'drop': .5, 'reopen': .4, 'addvar': .4, 'addset': .4}
    colmix.run(ctx, mix, ctx.pick(150, 1500), length=(4, 8),
               opts={'addvar': {'bad': 0}})
    # updates reading the updated variable around: known finding with an overlap
    cases = []
    for k in range(ctx.pick(8, 80)):
        cfg = colmix.small(ctx.rng)
        cfg['vars']['v0'] = colmix.var('int64', fill=-1)
        cfg['keys'] = [[1], [2], [3]]
        maker = gen.Maker(ctx.rng, cfg)
        maker.series = False
        insert = dict(maker.insert(keys=cfg['keys'], omit=0, merge={'replace': 1}))
        insert['ds']['cols']['v0'] = list(range(5, 5 + len(insert['ds']['keys'])))
        cases.append({'cfg': cfg, 'steps': [insert, {
            'op': 'updsum', 'name': 'v0', 'filter': ['all'], 'style': 'absent', 'npart': 1,
            'depth': k % 2, 'delayed': k % 4 > 1}]})
    ctx.judge('JudgeCollection', ctx.drive('zcol', cases), label='updates reading themselves')
    crashmix.fail(ctx, ['update'], ctx.pick(10, 120), ctx.pick(8, 25))
