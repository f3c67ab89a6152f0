"""C11: the variables of a view."""
import viewmix


def run(ctx):
    viewmix.model(ctx, ['vload', 'vmap', 'vupdate', 'vadd', 'vdrop', 'vreopen', 'vsync'],
                  limit=ctx.pick(120, 900), tail=[{'op': 'vload', 'filter': ['all'],
                                                  'chosen': []}])
    viewmix.run(ctx, {'vadd': 3, 'vdrop': 1.5, 'vload': 3, 'vmap': 2, 'vupdate': 4,
                      'vlist': .7, 'vreopen': 1, 'insert': 1, 'drop': .7, 'vsync': .7},
                ctx.pick(140, 1500))
