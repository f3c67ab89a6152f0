"""C05: a failed write leaves the partitions as they were."""
import crashmix


def run(ctx):
    ctx.model('MCCrashInsert', **ctx.pick({}, {'consts': {'Target': '{1, 2, 3}', 'MaxStops': 3}}))
    crashmix.run(ctx, 'fail', ctx.pick(28, 300), ctx.pick(10, 40))
