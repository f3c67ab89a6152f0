"""Runs programs over datasets held in memory."""
from __future__ import annotations

import pathlib
import pickle
import random
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import dask  # noqa: E402
import drv  # noqa: E402
import numpy  # noqa: E402
import zdecl  # noqa: E402
from zcollection import compressed_array, dataset, meta  # noqa: E402
from zstore import make, native, one, texts  # noqa: E402

OMITTED = 9999


def index(item, size):
    if item['kind'] == 'list':
        return list(item['idx'])
    a, b = (None if x == OMITTED else x for x in (item['a'], item['b']))
    return slice(a, b, item['step'])


def holes(var):
    """True if some blocks are empty."""
    return not var.size or any(0 in x for x in getattr(var.array, 'chunks', ()))


class Program:

    def __init__(self, case):
        self.case = case
        self.regs = {}

    def fill_of(self, var):
        return None if var['fill'] is None else make([var['fill']], var['dtype'], ())[()]

    def data_of(self, var, delayed, chunk):
        arr = make(var['tokens'], var['dtype'], var['shape'])
        if not delayed:
            return arr
        import dask.array
        return dask.array.from_array(arr, chunks=chunk if chunk else -1) if arr.ndim \
            else dask.array.from_array(arr)

    def props(self, var):
        return dict(attrs=[dataset.Attribute(k, v) for k, v in var['attrs'].items()],
                    compressor=zdecl.CODECS.get(var['codec']), fill_value=self.fill_of(var))

    def variable(self, name, var, delayed, chunk):
        cls = dataset.DelayedArray if delayed else dataset.Array
        arr = self.data_of(var, delayed, chunk)
        if var['masked'] and var['fill'] is not None and not delayed:
            arr = numpy.ma.masked_equal(arr, self.fill_of(var))
        return cls(name, arr, var['dims'], **self.props(var))

    def spec_var(self, var):
        """As the specification sees the variable given."""
        arr = make(var['tokens'], var['dtype'], var['shape'])
        fill = self.fill_of(var)
        return {'dims': var['dims'], 'shape': var['shape'], 'cells': texts(arr),
                'dtype': native(var['dtype']), 'attrs': var['attrs'],
                'fill': 'none' if fill is None else one(fill, arr.dtype.kind),
                'codec': var['codec'] or ''}

    # ------------------------------------------------------------ operations
    def op_make(self, st):
        mixed = st['mixed']
        out = []
        for k, (name, var) in enumerate(st['vars'].items()):
            out.append(self.variable(name, var, st['delayed'] != (mixed and k == 0), st['chunk']))
        return dataset.Dataset(
            out, attrs=[dataset.Attribute(k, v) for k, v in st['attrs'].items()],
            chunks=[dataset.Dimension(k, v) for k, v in st['chunks'].items()],
            block_size_limit=st['block'])

    def op_isel(self, st):
        return self.regs[st['src']].isel({d: index(x, 0) for d, x in st['slices'].items()})

    def op_delete(self, st):
        return self.regs[st['src']].delete(index(st['slices'][st['dim']], 0), st['dim'])

    def op_concat(self, st):
        others = [self.regs[x] for x in st['others']]
        return self.regs[st['src']].concat(
            others[0] if len(others) == 1 and st['flag'] else
            iter(others) if st['flag'] else others, st['dim'])

    def op_merge(self, st):
        self.regs[st['src']].merge(self.regs[st['others'][0]])

    def op_rename(self, st):
        self.regs[st['src']].rename(dict(st['pairs']))

    def op_drop(self, st):
        names = st['names']
        self.regs[st['src']].drops_vars(names[0] if len(names) == 1 and st['flag'] else names)

    def op_select(self, st):
        names = st['names']
        return self.regs[st['src']].select_vars(
            names[0] if len(names) == 1 and st['flag'] else names)

    def op_bydims(self, st):
        return self.regs[st['src']].select_variables_by_dims(tuple(st['names']), st['pred'])

    def op_add(self, st):
        var = st['var']
        mvar = meta.Variable(st['name'], numpy.dtype(var['dtype']), dimensions=var['dims'],
                             **self.props(var))
        src = self.regs[st['src']]
        src.add_variable(mvar, None if st['blank'] else
                         self.data_of(var, src.delayed, st['chunk']))

    def op_compute(self, st):
        return self.regs[st['src']].compute()

    def op_persist(self, st):
        res = self.regs[st['src']].persist(compress=st['flag'])
        assert res is self.regs[st['src']]

    def op_setvalues(self, st):
        """New values for a variable, of the shape it has."""
        # the variables may be shared with another register
        src = pickle.loads(pickle.dumps(self.regs[st['src']]))
        rng = random.Random(st['seed'])
        st['given'] = {'cells': [], 'ndim': -1}
        var = src.variables[st['name']]
        shape = [*var.shape] + [1] * st['extra']
        fill = var.fill_value
        arr = make([rng.choice(st['pal']) for _ in range(int(numpy.prod(shape, dtype=int)))],
                   var.dtype, shape)
        st['given'] = {'cells': texts(arr), 'ndim': len(shape)}
        # Dask forgets the fill value of masked arrays without dimension
        if st['flag'] and fill is not None and (shape or not src.delayed):
            arr = numpy.ma.masked_equal(arr, fill)
            arr.fill_value = fill
        if src.delayed:
            import dask.array
            arr = dask.array.from_array(arr, chunks=st['chunk'] if st['chunk'] and shape else -1)
        var.values = arr
        return src

    def op_rechunk(self, st):
        return self.regs[st['src']].rechunk(chunks=st['chunk'] or -1)

    def op_pickle(self, st):
        return pickle.loads(pickle.dumps(self.regs[st['src']]))

    def op_same(self, st):
        """Every variable rebuilt from its own properties."""
        src = self.regs[st['src']]
        return dataset.Dataset(
            [var.rename(var.name) if not var.ndim else
             var.duplicate(var.values if st['flag'] or holes(var) else var.data)
             for var in src.variables.values()],
            attrs=src.attrs, chunks=src.dims_chunk, block_size_limit=src.block_size_limit,
            delayed=src.delayed)

    def op_xarray(self, st):
        xds = self.regs[st['src']].to_xarray()
        return dataset.Dataset.from_xarray(xds, delayed=st['delayed'])

    # -------------------------------------------------------------- readings
    def read(self, zds, name, how):
        var = zds.variables[name]
        if holes(var):
            # Dask fails to apply a function to the blocks of such arrays
            how = 'values'
        if how == 'values':
            arr = var.values
        elif how == 'data':
            arr = var.data.compute()
        elif how == 'getitem':
            arr = var[...]
            arr = arr.compute() if hasattr(arr, 'compute') else arr
        elif how == 'dict':
            arr = zds.to_dict([name])[name]
        elif how == 'raw':
            arr = var.array
            arr = arr.compute() if hasattr(arr, 'compute') else arr
        elif how == 'dask':
            arr = dask.compute(var)[0].values if zds.delayed else var.compute()
        elif how == 'expr':
            arr = var.values if name in dataset.Expression.BUILTINS else \
                dataset.Expression(name)(zds)
            arr = arr.compute() if hasattr(arr, 'compute') else arr
        elif how == 'array':
            arr = var.__array__()
        elif how == 'vpersist':
            arr = pickle.loads(pickle.dumps(var)).persist().values
        elif how == 'dpersist':
            arr = dask.persist(var)[0].values if zds.delayed else var.values
        elif how == 'metadata':
            arr = getattr(zds, name).values if not hasattr(dataset.Dataset, name) else var.values
        if isinstance(arr, compressed_array.CompressedArray):
            arr = arr[...]
        return arr

    def see(self, zds, how):
        out = {}
        for name, var in zds.variables.items():
            if how == 'metadata':
                props = zds.metadata().variables[name]
            else:
                props = var
            assert props.name == name and var.name == name, (name, var.name)
            arr = self.read(zds, name, how)
            fill = var.fill_value
            missing = numpy.ma.getmaskarray(arr).reshape(-1).tolist()
            plain = numpy.ma.getdata(arr)
            if any(missing):
                plain = numpy.where(numpy.ma.getmaskarray(arr), fill, plain).astype(plain.dtype)
            out[name] = {
                'dims': list(props.dimensions), 'shape': list(plain.shape),
                'cells': texts(plain), 'missing': missing, 'raw': how == 'raw',
                'dtype': native(props.dtype),
                'fill': 'none' if fill is None else one(fill, numpy.dtype(var.dtype).kind),
                'attrs': {x.name: x.value for x in props.attrs},
                'codec': next((k for k, v in zdecl.CODECS.items() if v == props.compressor), '')}
            assert list(var.shape) == list(plain.shape), (var.shape, plain.shape)
            assert native(var.dtype) == native(plain.dtype), (var.dtype, plain.dtype)
        return {'vars': out, 'attrs': {x.name: x.value for x in zds.attrs},
                'chunks': dict(zds.chunks),
                'block': 0 if zds.block_size_limit == meta.BLOCK_SIZE_LIMIT
                else zds.block_size_limit,
                'dims': dict(zds.dimensions), 'delayed': zds.delayed}

    def run(self):
        out = []
        for st in self.case['steps']:
            rec = {k: st[k] for k in st if k not in ('vars', 'var', 'how')}
            rec['res'], rec['error'] = 'ok', ''
            rec.setdefault('others', [])
            rec.setdefault('src', '')
            if 'vars' in st:
                rec['vars'] = {k: self.spec_var(v) for k, v in st['vars'].items()}
            if 'var' in st:
                rec['var'] = self.spec_var(st['var'])
            if st.get('src') and st['src'] not in self.regs or any(
                    x not in self.regs for x in rec['others']):
                continue
            if st['op'] == 'make':
                rec['block'] = st['block'] or 0
            try:
                res = getattr(self, 'op_' + st['op'])(st)
                if res is not None:
                    if any(res is x for x in self.regs.values()):
                        res = pickle.loads(pickle.dumps(res))
                    self.regs[st['dst']] = res
            except Exception as exc:
                rec['res'], rec['error'] = 'refused', f'{type(exc).__name__}: {exc}'[:300]
            if 'given' in st:
                rec['given'] = st.pop('given')
            rec['regs'] = {}
            for name, zds in self.regs.items():
                how = st['how'][name]
                try:
                    rec['regs'][name] = self.see(zds, how)
                except Exception as exc:
                    rec['regs'][name] = {'error': f'{how}: {type(exc).__name__}: {exc}'[:300]}
            out.append(rec)
        return {'steps': out, 'case': self.case}


def execute(case):
    with dask.config.set(scheduler=case['scheduler']):
        return Program(case).run()


if __name__ == '__main__':
    drv.main(execute)
