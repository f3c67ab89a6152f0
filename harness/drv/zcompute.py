"""Evaluates expressions on datasets and on compressed arrays."""
import operator
import pathlib
import pickle
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import dask  # noqa: E402
import dask.array  # noqa: E402
import drv  # noqa: E402
import numpy  # noqa: E402
import zarr  # noqa: E402
import zcollection  # noqa: E402
from zcollection import compressed_array, dataset  # noqa: E402

MISS = -999999999
TEXT = {'add': '({} + {})', 'sub': '({} - {})', 'mul': '({} * {})', 'mod': 'mod({}, {})',
        'div': 'floor(({}) / {})', 'lt': '({} < {})', 'le': '({} <= {})', 'eq': '({} == {})',
        'ne': '({} != {})', 'neg': '(-{})', 'abs': 'abs({})', 'square': 'power({}, 2)',
        'sum': 'sum({})', 'min': 'min({})', 'max': 'max({})'}
FUNCS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'mod': operator.mod,
         'div': operator.floordiv, 'lt': operator.lt, 'le': operator.le, 'eq': operator.eq,
         'ne': operator.ne, 'neg': operator.neg, 'abs': numpy.abs, 'square': numpy.square,
         'sum': numpy.sum, 'min': numpy.min, 'max': numpy.max, 'maximum': numpy.maximum,
         'minimum': numpy.minimum}

QUARTER = ['sin', 'cos', 'tan', 'exp', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh',
           'arcsinh', 'arctanh']
WHOLE = ['log', 'log10', 'log2', 'sqrt', 'arccosh']
TEXT.update({k: 'round(10000 * %s({} / 4))' % k for k in QUARTER})
TEXT.update({k: 'round(10000 * %s({}))' % k for k in WHOLE})
TEXT.update({k: '%s({} / 4)' % k for k in ('ceil', 'floor', 'round')})
TEXT.update({k: '%s({})' % k for k in ('isfinite', 'isinf', 'isnan', 'prod')})
TEXT.update({k: '%s({}, {})' % k for k in ('remainder', 'fmod', 'power')})
TEXT.update(arctan2='round(10000 * arctan2({}, {}))', pi='round(10000 * pi)',
            e='round(10000 * e)', mean='round(27720 * mean({}))',
            variance='floor(1000 * var({}) + 0.3)', std='floor(1000 * power(std({}), 2) + 0.3)')


def function(name):
    """The same computation, written with numpy."""
    code = TEXT[name].format('x', 'y')
    return lambda x=None, y=None: eval(code, {'__builtins__': {}},
                                       {**vars(numpy), 'x': x, 'y': y})


FUNCS['astype'] = lambda x: x.astype('int64')
FUNCS.update({k: function(k) for k in TEXT if k not in FUNCS})


def text(tree):
    if tree[0] in ('var', 'const'):
        return str(tree[1])
    args = [text(t) for t in tree[1:]]
    if tree[0] in ('maximum', 'minimum'):
        # not offered by the expressions: (x + y +- |x - y|) / 2
        sign = '+' if tree[0] == 'maximum' else '-'
        return '(({0} + {1} {2} abs({0} - {1})) / 2)'.format(*args, sign)
    return TEXT[tree[0]].format(*args)


def value(tree, env, number=''):
    if tree[0] == 'var':
        return env[tree[1]]
    if tree[0] == 'const':
        return numpy.dtype(number).type(tree[1]) if number else tree[1]
    args = [value(t, env, number) for t in tree[1:]]
    if len(args) == 2 and tree[2][0] == 'var' and tree[1][0] not in ('var', 'const'):
        # numpy's masked arrays ignore the masks of the operands of other types
        args[1] = args[1].map_blocks(operator.itemgetter(...)) if isinstance(
            args[1], dask.array.Array) else args[1][...]
    if len(args) == 2 and isinstance(args[0], numpy.ma.MaskedArray):
        if isinstance(args[1], compressed_array.CompressedArray):
            args[1] = args[1][...]
        elif isinstance(args[1], dask.array.Array):
            args[1] = args[1].compute()
    return FUNCS[tree[0]](*args)


def plain(arr, shape):
    return (numpy.array(arr['raw'], dtype=arr['dtype']) / arr.get('scale', 1)).astype(
        arr['dtype']).reshape(shape)


def build(case, cls):
    dims = ('num', 'x')[:len(case['shape'])]
    out = []
    for name, arr in case['arrays'].items():
        var = cls(name, plain(arr, case['shape']), dims,
                  fill_value=arr['fill'][0] if arr['fill'] else None)
        if cls is dataset.DelayedArray and case['chunk']:
            var.array = var.array.rechunk(case['chunk'])
        out.append(var)
    return dataset.Dataset(out)


def box(arr, shape):
    kwargs = {}
    if arr['fill']:
        kwargs['fill_value'] = arr['fill'][0]
        if 'scale' in arr:
            kwargs['fill_value'] /= arr['scale']
    if arr['chunk']:
        kwargs['chunks'] = arr['chunk']
    data = plain(arr, shape)
    if arr['box'] == 'zarr' and not arr['fill']:
        return compressed_array.CompressedArray(zarr.array(data))
    if arr['box'] == 'set':
        out = compressed_array.CompressedArray(numpy.zeros_like(data), **kwargs)
        out[...] = data
        return out
    out = compressed_array.CompressedArray(data, **kwargs)
    if arr['box'] == 'rechunk':
        out = out.rechunk(tuple(max(1, n // 2) for n in shape))
    elif arr['box'] == 'copy':
        out = compressed_array.CompressedArray(out)
    elif arr['box'] == 'pickle':
        out = pickle.loads(pickle.dumps(out))
    return out


def contents(zds):
    return {k: (str(v.array.dtype), numpy.asarray(v.array).tolist())
            for k, v in zds.variables.items()}


def one(case, how):
    tree = case['tree']
    if how in ('box', 'box_dask', 'box_mixed'):
        env = {k: box(v, case['shape']) for k, v in case['arrays'].items()}
        before = {k: numpy.array(v._array[...]) for k, v in env.items()}
        use = env
        if how == 'box_dask':
            use = {k: compressed_array.dask_array_from_compressed_array(v)
                   for k, v in env.items()}
        elif how == 'box_mixed':
            # some of the operands are compressed, the others masked or delayed
            whole = build(case, dataset.DelayedArray)
            for name in list(env)[1::2]:
                use = {**use, name: whole.variables[name].data}
                if len(env) > 2:
                    use[name] = use[name].compute()
        result = value(tree, use, case['number'])
        if hasattr(result, 'compute'):
            result = result.compute()
        same = all(numpy.array_equal(before[k], env[k]._array[...]) for k in env)
        if isinstance(result, compressed_array.CompressedArray):
            result = result.__array__()
        return result, same
    zds = build(case, dataset.Array if how == 'eager' else dataset.DelayedArray)
    before = contents(zds)
    if how == 'persisted':
        zds = zds.persist()
    elif how in ('compressed', 'raw_compressed'):
        zds = zds.persist(compress=True)
    elif how == 'computed':
        zds = zds.compute()
    elif how == 'pickled':
        zds = pickle.loads(pickle.dumps(zds))
    if how == 'raw_compressed':
        result = value(tree, {k: v.array for k, v in zds.variables.items()}, case['number'])
    else:
        result = zcollection.Expression(text(tree))(zds)
    if hasattr(result, 'compute'):
        result = result.compute()
    if isinstance(result, compressed_array.CompressedArray):
        result = result.__array__()
    return result, contents(zds) == before


def execute(case):
    case = dict(case, runs=[])
    with dask.config.set(scheduler='synchronous'), numpy.errstate(all='ignore'):
        for how in case.pop('how'):
            run = {'how': how, 'cells': [], 'shape': [], 'unchanged': True, 'error': ''}
            try:
                result, same = one(case, how)
                mask = numpy.ma.getmaskarray(result)
                data = numpy.ma.getdata(result)
                run['shape'] = [int(x) for x in numpy.shape(result)]
                cells = []
                for val, miss in zip(numpy.ravel(data).tolist(), numpy.ravel(mask).tolist()):
                    cells.append(MISS if miss else int(val) if val == int(val) else 777777777)
                run.update(cells=cells, unchanged=bool(same), res='ok')
            except NameError as exc:
                run.update(res='undefined', error=repr(exc))
            except Exception as exc:
                run.update(res='error', error=f'{type(exc).__name__}: {exc}'[:300])
            case['runs'].append(run)
    return case


drv.main(execute)
