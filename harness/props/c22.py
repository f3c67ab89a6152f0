"""C22: computations on variables and compressed arrays."""
import computemix


def run(ctx):
    ctx.model('MCCompute', consts=ctx.pick({}, {'MaxLen': 3, 'Values': '{0, 3}'}), timeout=800)
    ctx.refute('MCCompute', consts={'Shared': 'TRUE', 'MaxLen': 1})
    computemix.run(ctx, ctx.pick(1200, 20000), ctx.pick(500, 5000))
