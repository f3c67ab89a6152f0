"""C12: synchronisation of a view with its reference."""
import viewmix


def run(ctx):
    viewmix.model(ctx, ['insert', 'drop', 'vupdate', 'vsync', 'vsynced', 'vadd', 'vdrop'],
                  limit=ctx.pick(120, 1200), depth=ctx.pick(2, 3),
                  tail=[{'op': 'vsynced'}, {'op': 'vsync'}, {'op': 'vsynced'},
                        {'op': 'vload', 'filter': ['all'], 'chosen': []}])
    viewmix.run(ctx, {'insert': 3, 'drop': 1.5, 'vsync': 3, 'vsynced': 2, 'vupdate': 2,
                      'vadd': 1.5, 'vdrop': .5, 'vload': .7, 'vlist': .5, 'vreopen': .3},
                ctx.pick(120, 1500), length=(6, 12))
    viewmix.changed(ctx, ctx.pick(48, 480))
