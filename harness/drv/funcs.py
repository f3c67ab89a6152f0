"""Functions given to the library.  They live in an importable module so that the
workers of the in-process cluster share the recording lists."""
from __future__ import annotations

import threading
import time

import numpy

MISSING = -999999999
CALLS: list = []
LOCK = threading.Lock()


def ints(values, width_first=True):
    """Values as (nested) lists of integers, missing ones as MISSING."""
    mask = numpy.ma.getmaskarray(values)
    data = numpy.ma.getdata(values)
    flat = []
    for x, m in zip(data.ravel(), mask.ravel()):
        if m:
            flat.append(MISSING)
        elif data.dtype.kind == 'f' and numpy.isnan(x):
            flat.append(MISSING)
        elif data.dtype.kind == 'M':
            flat.append(int(x.astype('int64')))
        else:
            v = float(x) if data.dtype.kind == 'f' else int(x)
            iv = int(v) if abs(v) < 2**31 else 2**31 - 1
            flat.append(iv if iv == v else 2**31 - 2)
    return numpy.array(flat, dtype='int64').reshape(data.shape).tolist()


def merge_concat(existing_ds, inserted_ds, axis, partitioning_dim, **kwargs):
    return existing_ds.concat(inserted_ds, partitioning_dim)


def merge_keep(existing_ds, inserted_ds, axis, partitioning_dim, **kwargs):
    return existing_ds


class Boom(Exception):
    pass


def merge_fail(existing_ds, inserted_ds, axis, partitioning_dim, **kwargs):
    raise Boom('merge')


def _describe(zds, cfg):
    """Content of a dataset seen by a function: ({var: column}, {imm: value})."""
    cols, imm = {}, {}
    for name, var in zds.variables.items():
        if cfg['dim'] not in var.dimensions:
            imm[name] = ints(var.values)
            continue
        values = var.values
        axis = var.dimensions.index(cfg['dim'])
        if axis:
            values = numpy.moveaxis(values, axis, 0) if not isinstance(
                values, numpy.ma.MaskedArray) else values.swapaxes(0, axis)
        if name == cfg['axis']:
            cols[name] = axis_ints(values, cfg)
        else:
            cols[name] = ints(values)
    return cols, imm


def axis_ints(values, cfg):
    """Axis values as small integers."""
    if cfg['part']['kind'] == 'date':
        start = values.astype(f'M8[{cfg["part"]["res"]}]').astype(values.dtype)
        return ((values - start).astype('int64')).tolist()
    if values.dtype.kind == 'M':
        return (values - numpy.datetime64(cfg['t0'], cfg['unit'])
                ).astype('int64').tolist()
    return [int(x) for x in values]


def describe(zds, cfg, partition_info=None):
    cols, imm = _describe(zds, cfg)
    info = []
    if partition_info is not None:
        dim, sl = partition_info
        assert dim == cfg['dim'], dim
        info = [int(sl.start), int(sl.stop)]
    return {'cols': cols, 'imm': imm, 'info': info}


def map_plain(zds, cfg, *args, extra=None, **kwargs):
    out = describe(zds, cfg)
    assert args == (7, ) and extra == 'x', (args, extra)
    return out


def map_info(zds, cfg, *args, partition_info=None, extra=None):
    out = describe(zds, cfg, partition_info)
    assert args == (7, ) and extra == 'x', (args, extra)
    return out


def row_value(kind, c, seen, x):
    if kind == 'const':
        return c
    if kind == 'linear':
        return 2 * x + c
    if kind == 'mask':
        return MISSING if x % 2 == 0 else x + c
    if kind == 'window':
        return x + 7 * len(seen) + seen[0] + 3 * seen[-1]
    raise AssertionError(kind)


def compute(zds, cfg, u, partition_info):
    """Values of the target variables for the rows to return."""
    ident = [int(x) for x in zds[cfg['ident']].values]
    rows = ident
    if not u.get('trim', True) and partition_info is not None:
        rows = ident[partition_info[1]]
    out = {}
    for name in u['targets']:
        spec = cfg['vars'].get(name, {'width': 0, 'dtype': 'int64', 'second': False,
                                      'fill': -1})
        base = [row_value(u['kind'], u['c'], ident, x) for x in rows]
        if spec['width']:
            data = [[MISSING if b == MISSING else b + j + 1
                     for j in range(spec['width'])] for b in base]
        else:
            data = base
        arr = numpy.array(data, dtype='int64')
        if spec['width'] and arr.size == 0:
            arr = arr.reshape(0, spec['width'])
        mask = arr == MISSING
        arr = numpy.where(mask, 4321, arr).astype(spec['dtype'])
        if spec.get('second'):
            arr, mask = arr.T, mask.T
        if mask.any():
            arr = numpy.ma.masked_array(arr, mask)
        out[name] = arr
    return out


def record(zds, cfg, partition_info):
    ident = [int(x) for x in zds[cfg['ident']].values]
    imm = {name: ints(var.values) for name, var in zds.variables.items()
           if cfg['dim'] not in var.dimensions}
    start, stop = (-1, -1) if partition_info is None else (
        int(partition_info[1].start), int(partition_info[1].stop))
    if partition_info is not None:
        assert partition_info[0] == cfg['dim']
    with LOCK:
        CALLS.append([ident, start, stop, sorted(zds.variables), imm])


def update_plain(zds, cfg, u, *args, extra=None, **kwargs):
    assert args == (7, ) and extra == 'x', (args, extra)
    record(zds, cfg, None)
    return compute(zds, cfg, u, None)


def update_info(zds, cfg, u, *args, partition_info=None, extra=None):
    assert args == (7, ) and extra == 'x', (args, extra)
    record(zds, cfg, partition_info)
    return compute(zds, cfg, u, partition_info)


def update_sum(zds, name, cfg):
    return {name: zds[cfg['ident']].values + zds[name].values.sum()}


def slow_fail(zds, cfg, bad_ident, delay):
    ident = [int(x) for x in zds[cfg['ident']].values]
    if bad_ident in ident:
        raise Boom('update')
    time.sleep(delay)
    return {}


def index_entries(zds, kind, grp, dtype, **kwargs):
    """Entries of the index for one partition."""
    col = [int(x) for x in zds[grp].values]
    n = len(col)
    out = []
    if kind == 'runs':
        a = 0
        while a < n:
            b = a
            while b < n and col[b] == col[a]:
                b += 1
            out.append((a, b, col[a]))
            a = b
    elif kind == 'rows':
        out = [(a, a + 1, col[a]) for a in range(n) if col[a]]
    else:
        out = [(a, min(n, a + 1 + col[a]), col[a]) for a in range(n) if col[a]]
    return numpy.array([(a, b, g, str(g % 2).encode()) for a, b, g in out], dtype=dtype)


def select_even(keys):
    """Predicate of a view."""
    return sum(keys.values()) % 2 == 0


def select_any(keys):
    """Predicate of a view."""
    return True
