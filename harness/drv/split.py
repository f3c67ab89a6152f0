"""Splits datasets (and inserts some of them) with the real partitioning."""
import pathlib
import shutil
import sys
import uuid

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import dask  # noqa: E402
import drv  # noqa: E402
import numpy  # noqa: E402
import zarr  # noqa: E402
import zcollection  # noqa: E402
from zcollection import dataset, meta, partitioning  # noqa: E402

PER_DAY = {'D': 1, 'h': 24, 'm': 1440, 's': 86400, 'ms': 86400 * 10**3,
           'us': 86400 * 10**6, 'ns': 86400 * 10**9}


def instant(row, unit):
    days, secs, nanos = row
    per = PER_DAY[unit]
    val = days * per + (secs * per) // 86400
    sub = per // 86400
    if sub > 1:
        val += nanos // (10**9 // sub)
    return val


def limbs(value):
    value += 2**63
    return [value // 2**42, (value // 2**21) % 2**21, value % 2**21]


def execute(case):
    cls = dataset.DelayedArray if case['delayed'] else dataset.Array
    n = len(case['rows'])
    variables, names = [], []
    if case['kind'] == 'date':
        values = numpy.array([instant(r, case['unit']) for r in case['rows']],
                             dtype='int64').view(f'M8[{case["unit"]}]')
        variables.append(cls('time', values, ('num', )))
        part = partitioning.Date(('time', ), case['res'])
        names = ['time']
    else:
        names = case['names']
        for k, name in enumerate(names):
            values = numpy.array([r[k] for r in case['values']],
                                 dtype=case['dtypes'][k])
            variables.append(cls(name, values, ('num', )))
        part = partitioning.Sequence(names, case['dtypes'])
    if not case['insert'] or case['kind'] != 'date':
        variables.append(cls('axis', numpy.arange(n), ('num', )))
    variables.append(cls('ident', numpy.arange(1, n + 1), ('num', )))
    if case['delayed'] and case['chunk']:
        for var in variables:
            var.array = var.array.rechunk(case['chunk'])
    zds = dataset.Dataset(variables)
    before = {v.name: numpy.array(v.values) for v in variables}
    obs = {'refused': False, 'error': '', 'slices': [], 'filed': [],
           'operand_unchanged': True}
    out = {k: v for k, v in case.items() if k != 'values'}
    out['obs'] = obs

    def label(parts):
        if case['kind'] != 'limbs':
            return list(parts)
        res = []
        for name, item in zip(names, parts):
            key, _, val = item.partition('=')
            assert key == name
            res += limbs(int(val))
        return res

    try:
        if not case['insert'] or not case['delayed']:
            with dask.config.set(scheduler='synchronous'):
                obs['slices'] = [
                    [label(p), int(ix['num'].start), int(ix['num'].stop)]
                    for p, ix in part.split_dataset(zds, 'num')
                    if ix['num'].step in (None, 1) and list(ix) == ['num']]
    except ValueError as exc:
        obs['refused'] = True
        obs['error'] = repr(exc)
    except Exception as exc:
        obs['error'] = repr(exc)
    if case['insert']:
        drv.client()
        base = pathlib.Path(drv.WORK) / uuid.uuid4().hex
        try:
            axis = 'time' if case['kind'] == 'date' else 'axis'
            zcol = zcollection.create_collection(
                axis, zds, part, str(base))
            try:
                zcol.insert(zds)
                if case['delayed']:
                    obs['slices'] = [
                        [label(p), int(ix['num'].start), int(ix['num'].stop)]
                        for p, ix in part.split_dataset(zds, 'num')]
            except ValueError as exc:
                obs['refused'] = True
                obs['error'] = repr(exc)
            except Exception as exc:
                obs['error'] = obs['error'] or repr(exc)
            depth = len(part)
            for item in sorted(base.glob('/'.join(['*'] * depth))):
                rel = item.relative_to(base).parts
                if rel[0].startswith('.') or not item.is_dir():
                    continue
                group = zarr.open_group(str(item), mode='r')
                obs['filed'].append([label(rel), [int(x) for x in group['ident'][...]]])
            # in the order of the slices: directory order is not significant
            obs['filed'].sort(key=lambda x: x[1][0] if x[1] else 0)
        finally:
            shutil.rmtree(base, ignore_errors=True)
    obs['operand_unchanged'] = all(
        numpy.array_equal(before[k], numpy.array(zds[k].values)) for k in before)
    return out


drv.main(execute)
