"""C13: indexes."""
import indexmix


def run(ctx):
    ctx.model('MCIndexer', consts=dict(Depth0=ctx.pick(3, 3), MaxLen=ctx.pick(3, 4)),
              timeout=800)
    indexmix.run(ctx, {'iquery': 4, 'iload': 3, 'viload': 2, 'iupdate': 2, 'insert': 2,
                       'drop': .6, 'ireopen': .8}, ctx.pick(160, 1800))
