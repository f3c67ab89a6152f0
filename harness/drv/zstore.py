"""Writes one variable in every way, reads it in every way."""
from __future__ import annotations

import pathlib
import shutil
import sys
import uuid

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import drv  # noqa: E402
import fsspec  # noqa: E402
import funcs  # noqa: E402
import numpy  # noqa: E402
import zarr  # noqa: E402
import zcollection  # noqa: E402
import zdecl  # noqa: E402
from zcollection import compressed_array, dataset, meta, partitioning, storage  # noqa: E402


def make(tokens, dtype, shape):
    """Array described by texts."""
    dtype = numpy.dtype(dtype)
    if dtype.kind in 'mM':
        out = numpy.array([-2**63 if t == 'NaT' else int(t) for t in tokens],
                          'int64').astype(dtype)
    elif dtype.kind in 'iu':
        out = numpy.array([int(t) for t in tokens], dtype)
    elif dtype.kind == 'f':
        with numpy.errstate(all='ignore'):
            out = numpy.array([float(t) for t in tokens]).astype(dtype)
    elif dtype.kind == 'c':
        out = numpy.array([complex(t) for t in tokens]).astype(dtype)
    elif dtype.kind == 'b':
        out = numpy.array([t == 'True' for t in tokens], dtype)
    elif dtype.kind == 'S':
        out = numpy.array([t.encode() for t in tokens], dtype)
    else:
        out = numpy.array(tokens, dtype)
    return out.reshape(shape)


def one(x, kind):
    if kind in 'mM':
        v = int(numpy.array(x).astype('int64'))
        return 'NaT' if v == -2**63 else str(v)
    if kind in 'iu':
        return str(int(x))
    if kind == 'f':
        v = float(x)
        return 'nan' if v != v else repr(v + 0.0)
    if kind == 'c':
        v = complex(x)
        return 'nan' if v != v else f'{v.real + 0.0!r} {v.imag + 0.0!r}'
    if kind == 'b':
        return str(bool(x))
    return repr(x.item() if hasattr(x, 'item') else x)


def texts(arr):
    arr = numpy.asarray(arr)
    return [one(x, arr.dtype.kind) for x in arr.reshape(-1)]


def native(dtype):
    return numpy.dtype(dtype).newbyteorder('=').str


class Store:

    def __init__(self, case):
        self.case = case
        self.root = pathlib.Path(drv.WORK) / uuid.uuid4().hex[:12]
        self.fs = fsspec.filesystem(case['fs'])
        if case['fs'] == 'memory':
            self.root = pathlib.Path('/zcv') / uuid.uuid4().hex[:12]
        else:
            self.root.mkdir()
        self.path = str(self.root / 'c')
        self.dtype = numpy.dtype(case['dtype'])
        self.fill = None if case['fill'] is None else make([case['fill']], self.dtype, ())[()]
        self.kwargs = dict(compressor=zdecl.CODECS.get(case['compressor']),
                           filters=[zdecl.make_filter(f, self.dtype.str)
                                    for f in case['filters']],
                           fill_value=self.fill)
        self.zcol = None
        self.last = None

    def array(self, step):
        arr = make(step['tokens'], self.dtype, self.case['shape'])
        if any(step['mask']):
            arr = numpy.ma.masked_array(
                arr, numpy.array(step['mask']).reshape(self.case['shape']), fill_value=self.fill)
        return arr

    def dataset(self, step, arr):
        c = self.case
        cls = dataset.DelayedArray if step['delayed'] else dataset.Array
        zds = dataset.Dataset(
            [cls('k', numpy.array(c['keys'], 'int64'), ('num', )),
             cls('w', numpy.zeros(c['shape'], 'int8'), c['dims']),
             cls('v', arr, c['dims'], **self.kwargs)],
            chunks=[dataset.Dimension(k, v) for k, v in c['chunks']],
            block_size_limit=c['block'])
        if step['delayed'] and step['chunk'] and not any(step['mask']):
            for var in zds.variables.values():
                if var.array.ndim:
                    var.array = var.array.rechunk(step['chunk'])
        return zds

    def record(self, step, arr):
        step['given'] = texts(numpy.ma.getdata(arr))
        for name in ('tokens', ):
            step.pop(name)

    def op_insert(self, step):
        arr = self.array(step)
        zds = self.dataset(step, arr)
        self.record(step, arr)
        if self.zcol is None:
            self.zcol = zcollection.create_collection(
                'k', zds, partitioning.Sequence(('k', )), self.path, filesystem=self.fs)
        list(self.zcol.insert(zds, npartitions=step['npartitions']))
        self.last = zds

    def op_update(self, step):
        arr = self.array(step)
        self.record(step, arr)
        axis = self.case['dims'].index('num')
        keys = numpy.array(self.case['keys'])

        def func(zds, *args):
            mine = numpy.flatnonzero(numpy.isin(keys, zds['k'].values))
            out = arr[(slice(None), ) * axis + (mine, )]
            if step['delayed']:
                import dask.array
                return {'v': dask.array.from_array(out)}
            return {'v': out}
        self.zcol.update(func, delayed=step['delayed'])
        self.last = None

    def op_createset(self, step):
        self.op_create(step)
        self.op_update(step)

    def op_create(self, step):
        """The variable, removed and added again, holds its fill value."""
        self.zcol.drop_variable('v')
        self.zcol.add_variable(meta.Variable('v', self.dtype, dimensions=self.case['dims'],
                                             **self.kwargs))
        self.last = None

    def op_reopen(self, step):
        self.zcol = zcollection.open_collection(self.path, mode='w', filesystem=self.fs)

    # -------------------------------------------------------------- readings
    def seen(self, arr, raw=False):
        """Shape, type, values, missing values."""
        missing = numpy.ma.getmaskarray(arr).reshape(-1).tolist()
        plain = numpy.ma.getdata(arr)
        if self.fill is not None and any(missing):
            plain = numpy.where(numpy.ma.getmaskarray(arr), self.fill, plain).astype(plain.dtype)
        return {'shape': list(plain.shape), 'dtype': native(plain.dtype), 'cells': texts(plain),
                'missing': missing, 'raw': raw}

    def check_var(self, var):
        assert tuple(var.dimensions) == tuple(self.case['dims']), var.dimensions

    def read_eager(self):
        zds = self.zcol.load(delayed=False)
        self.check_var(zds['v'])
        return zds['v'].values

    def read_delayed(self):
        zds = self.zcol.load()
        self.check_var(zds['v'])
        return zds['v'].values

    def read_array(self):
        return numpy.asarray(self.zcol.load(delayed=False)['v'].array)

    def read_data(self):
        return self.zcol.load(delayed=self.case['flag'])['v'].data.compute()

    def read_getitem(self):
        arr = self.zcol.load(delayed=self.case['flag'])['v'][...]
        return arr.compute() if hasattr(arr, 'compute') else arr

    def read_selected(self):
        return self.zcol.load(selected_variables=['v'], delayed=self.case['flag'])['v'].values

    def read_dict(self):
        return self.zcol.load(delayed=self.case['flag']).to_dict(['v'])['v']

    def read_computed(self):
        return self.zcol.load().compute()['v'].values

    def read_persisted(self):
        return self.zcol.load().persist()['v'].values

    def read_compressed(self):
        return self.zcol.load().persist(compress=True)['v'].values

    def read_compressed_data(self):
        arr = self.zcol.load().persist(compress=True)['v'].data.compute()
        return arr[...] if isinstance(arr, compressed_array.CompressedArray) else arr

    def read_box(self):
        """Directly through the class of compressed arrays."""
        var = self.zcol.load(delayed=False)['v']
        kwargs = {} if self.fill is None else {'fill_value': self.fill}
        box = compressed_array.CompressedArray(var.array, **kwargs)
        assert box.shape == var.shape and box.dtype == var.dtype
        if self.case['flag']:
            box = box.rechunk(tuple(max(1, x // 2) for x in var.shape))
        return box[...] if self.case['keys'][0] % 2 else numpy.ma.asanyarray(box.__array__())

    def box(self):
        var = self.zcol.load(delayed=False)['v']
        kwargs = {} if self.fill is None else {'fill_value': self.fill}
        return compressed_array.CompressedArray(var.array, chunks=2, **kwargs)

    def read_box_ufunc(self):
        """A function of one argument that changes nothing."""
        box = self.box()
        if self.dtype.kind == 'b':
            return numpy.logical_or(box, box)
        if self.dtype.kind == 'M':
            return numpy.maximum(box, box)
        return numpy.positive(box)

    def read_box_function(self):
        box = self.box()
        half = numpy.concatenate([box, box], axis=0)
        res = numpy.ma.asanyarray(box.reshape(box.shape)) if self.case['flag'] else \
            numpy.transpose(numpy.transpose(box))
        assert half.shape[0] == 2 * box.shape[0] and box.size == res.size
        return res

    def read_box_set(self):
        box = self.box()
        arr = numpy.ma.getdata(box[...]).copy()
        if self.fill is not None:
            arr[numpy.ma.getmaskarray(box[...])] = self.fill
        box[...] = arr[::-1]
        box[...] = numpy.ma.filled(box[...], self.fill)[::-1] if self.fill is not None \
            else box[...][::-1]
        return box[...]

    def read_box_dask(self):
        arr = compressed_array.dask_array_from_compressed_array(self.box())
        return arr.compute(scheduler='synchronous')

    def read_mapped(self):
        parts = self.zcol.map(lambda zds: zds['v'].values, delayed=self.case['flag']).compute()
        return numpy.ma.concatenate([x for _, x in parts],
                                    axis=self.case['dims'].index('num'))

    def read_zarr(self):
        axis = self.case['dims'].index('num')
        out = []
        for key in sorted(set(self.case['keys'])):
            out.append(zarr.open_consolidated(
                self.fs.get_mapper(f'{self.path}/k={key}'), mode='r')['v'][...])
        return numpy.concatenate(out, axis=axis)

    def read_to_zarr(self):
        path = str(self.root / uuid.uuid4().hex[:8])
        self.zcol.load().to_zarr(path, self.fs, parallel=False)
        res = storage.open_zarr_group(path, self.fs, delayed=self.case['flag'])['v'].values
        self.fs.rm(path, recursive=True)
        return res

    def read_xarray(self):
        """The dataset inserted is not modified by the insertion."""
        if self.last is None:
            return self.read_eager()
        return self.last['v'].values

    def read_filled(self):
        var = self.zcol.load(delayed=self.case['flag'])['v']
        if self.fill is None:
            return var.fill().values
        arr = var.fill().values
        assert bool(numpy.all(numpy.ma.getmaskarray(arr) | (
            numpy.ma.getdata(arr) != numpy.ma.getdata(arr)))), arr
        return self.read_eager()

    def run(self):
        c = self.case
        out = []
        for step in c['steps']:
            step = dict(step)
            step['res'], step['error'] = 'ok', ''
            try:
                getattr(self, 'op_' + step['op'])(step)
            except Exception as exc:
                step['res'], step['error'] = 'error', f'{type(exc).__name__}: {exc}'[:300]
            step['reads'] = []
            for how in step.pop('how') if self.zcol else []:
                try:
                    res = self.seen(getattr(self, 'read_' + how)(),
                                    raw=how in ('array', 'zarr'))
                except Exception as exc:
                    res = {'error': f'{type(exc).__name__}: {exc}'[:300]}
                step['reads'].append({'how': how, **res})
            step.pop('tokens', None)
            out.append(step)
            if step['res'] != 'ok':
                break
        blank = [''] * int(numpy.prod(c['shape'], dtype=int))
        return {'shape': c['shape'], 'dtype': native(self.dtype), 'blank': blank,
                'fill': 'none' if self.fill is None else one(self.fill, self.dtype.kind),
                'steps': out, 'case': c}


def execute(case):
    drv.client()
    store = Store(case)
    try:
        return store.run()
    finally:
        if case['fs'] == 'file':
            shutil.rmtree(store.root, ignore_errors=True)
        else:
            store.fs.rm(str(store.root), recursive=True)


if __name__ == '__main__':
    drv.main(execute)
