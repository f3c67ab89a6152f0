"""C07: writers hold the collection lock for the whole of their writes."""
import lockmix


def run(ctx):
    ctx.model('MCTransaction', **ctx.pick({}, {'consts': {
        'Writers': '{"a", "b", "c", "d"}', 'MaxFaults': 2, 'MaxDeaths': 2}}))
    lockmix.run(ctx, ctx.pick(150, 900), ctx.pick(18, 250), ctx.pick(40, 400))
