"""C10: collections opened read-only."""
import colmix


def run(ctx):
    colmix.model(ctx, ['insert', 'drop', 'update', 'addvar', 'dropvar', 'load', 'map', 'copy'],
                 limit=ctx.pick(100, 2500), depth=2, first=('insert', ),
                 after=(1, [dict(op='readonly')]), tail=[dict(op='load', filter=['all'], chosen=[])],
                 judge='JudgeReadOnly', check='MCReadOnly')
    mix = {'insert': 2, 'update': 2, 'drop': 1.5, 'addvar': 1.5, 'dropvar': 1.5, 'load': 2,
           'map': 1.5, 'list': 1, 'records': .7, 'validate': 2, 'copy': .7,
           'readonly': .5}
    colmix.run(ctx, mix, ctx.pick(110, 1300), length=(5, 10), first=('insert', 'readonly'),
               judge='JudgeReadOnly', label='read-only histories', on_copy=.25)
    mix = {k: v for k, v in mix.items() if k not in ('copy', 'map', 'records')}
    colmix.run(ctx, mix, ctx.pick(40, 400), length=(5, 10),
               first=('insert', 'addvar', 'damage', 'readonly', 'validate'),
               judge='JudgeReadOnly', label='damaged before')
