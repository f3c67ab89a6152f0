"""C06: a crash never destroys or corrupts stored data."""
import crashmix


def run(ctx):
    ctx.model('MCCrashInsert', **ctx.pick({}, {'consts': {'Target': '{1, 2, 3}', 'MaxStops': 3}}))
    crashmix.run(ctx, 'crash', ctx.pick(28, 300), ctx.pick(10, 40))
