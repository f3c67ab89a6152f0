"""C21: operations on datasets."""
import datamix


def run(ctx):
    ctx.model('MCDatasetAlgebra', consts=ctx.pick({'MaxX': 2}, {'MaxX': 4}))
    datamix.run(ctx, ctx.pick(1200, 30000))
