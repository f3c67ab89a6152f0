"""Merges two series with the real merge_time_series."""
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import dask  # noqa: E402
import drv  # noqa: E402
import numpy  # noqa: E402
from zcollection import dataset, merging  # noqa: E402

dask.config.set(scheduler='synchronous')


def execute(case):
    unit, delayed = case['unit'], case['delayed']
    base = numpy.datetime64(case['origin'], unit)
    scale = case['scale']
    cls = dataset.DelayedArray if delayed else dataset.Array

    def build(rows):
        t = base + numpy.array([r[0] for r in rows]) * numpy.timedelta64(scale, unit)
        a = numpy.array([r[1] for r in rows], dtype='int64')
        b = numpy.array([r[2:4] for r in rows], dtype='float64')
        c = numpy.array([[r[4] for r in rows], [r[5] for r in rows]],
                        dtype='int32')
        return dataset.Dataset([
            cls('time', t, ('num',)), cls('a', a, ('num',)),
            cls('b', b, ('num', 'y')), cls('c', c, ('y', 'num'), fill_value=numpy.int32(0)),
        ])

    def dump(zds):
        t = zds['time'].values
        v = {k: numpy.ma.filled(zds[k].values, 0) for k in ('a', 'b', 'c')}
        t = [int((x - base) / numpy.timedelta64(scale, unit)) for x in t]
        return [[t[k], int(v['a'][k]), int(v['b'][k][0]), int(v['b'][k][1]),
                 int(v['c'][0][k]), int(v['c'][1][k])] for k in range(len(t))]

    out = dict(case)
    try:
        old, new = build(case['old']), build(case['new'])
        kwargs = {}
        if case['tol'] >= 0:
            kwargs['tolerance'] = numpy.timedelta64(case['tol'] * scale, unit)
        res = merging.merge_time_series(old, new, 'time', 'num', **kwargs)
        out['obs'] = {'error': '', 'rows': dump(res), 'old': dump(old), 'new': dump(new)}
    except Exception as exc:
        out['obs'] = {'error': repr(exc)}
    return out


drv.main(execute)
