"""C20: stored values read back unchanged."""
import storemix


def run(ctx):
    ctx.model('MCStorage', consts=ctx.pick({}, {'N': 4}))
    ctx.refute('MCStorage', consts={'Stale': 'TRUE', 'N': 2, 'MaxOps': 1})
    storemix.run(ctx, ctx.pick(250, 4000))
