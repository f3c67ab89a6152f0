"""Concrete collections: building of the datasets, observation of the state."""
from __future__ import annotations

import datetime
import hashlib
import json
import os
import pathlib
import uuid

import fsspec
import numcodecs
import numpy
import xarray
import zarr

import drv
import funcs
import zcollection
from zcollection import dataset, merging, meta, partitioning

MISSING = funcs.MISSING
UNITS = ('year', 'month', 'day', 'hour', 'minute', 'second')
COMPRESSORS = {
    None: None, 'zlib': numcodecs.Zlib(1), 'blosc': numcodecs.Blosc('lz4', 3),
    'blosczstd': numcodecs.Blosc('zstd', 1, 2), 'gzip': numcodecs.GZip(1),
    'bz2': numcodecs.BZ2(1), 'lzma': numcodecs.LZMA(), 'zstd': numcodecs.Zstd(),
    'lz4': numcodecs.LZ4(),
}
FILTERS = {None: (), 'shuffle': (numcodecs.Shuffle(8), ),
           'delta': (numcodecs.Delta(dtype='<i8'), )}


def as_xarray(zds):
    """A dataset given as an xarray dataset holding the encoded values."""
    out = {}
    for name, var in zds.variables.items():
        values = numpy.ma.filled(var.values, var.fill_value) \
            if var.fill_value is not None else numpy.asarray(var.array)
        out[name] = xarray.Variable(
            var.dimensions, values,
            encoding={'_FillValue': var.fill_value, 'compressor': var.compressor})
    return xarray.Dataset(out, attrs={'title': 'zcv'})


def redeclared(zds, what):
    """The same values, with another declaration."""
    if not what:
        return zds
    names = [n for n, v in zds.variables.items() if v.fill_value is not None] \
        or list(zds.variables)
    var = zds.variables[names[-1]]
    if what == 'dtype' and var.dtype.kind in 'if':
        zds.variables[names[-1]] = type(var)(
            var.name, var.array.astype(
                var.dtype.str[:2] + ('4' if var.dtype.itemsize == 8 else '8')),
            var.dimensions, attrs=var.attrs, compressor=var.compressor,
            fill_value=var.fill_value)
    elif what == 'fill':
        var.fill_value = 77
    elif what == 'units':
        var.attrs = (*var.attrs, dataset.Attribute('extra', 1))
    elif what == 'compressor':
        var.compressor = numcodecs.LZMA()
    elif what == 'chunks':
        zds.chunks = {'another': 12}
    elif what == 'block':
        zds.block_size_limit = 77777
    else:
        zds.attrs = (*zds.attrs, dataset.Attribute('extra', 1))
    return zds


class Env:
    """One collection described by a configuration."""

    def __init__(self, cfg: dict, path: str | None = None) -> None:
        self.cfg = cfg
        self.root = pathlib.Path(drv.WORK) / uuid.uuid4().hex[:12]
        if cfg.get('fs') == 'memory':
            self.fs = fsspec.filesystem('memory')
            self.root = pathlib.Path('/zcv') / uuid.uuid4().hex[:12]
        else:
            self.fs = fsspec.filesystem('file')
            self.root.mkdir()
        self.path = path or str(self.root / cfg.get('base', 'col'))
        self.short = cfg.get('fs') == 'memory' and cfg.get('short', 0) and not path
        if self.short:
            # at the top of the file system, under the name of the first key
            self.path = '/' + self.key_names()[0][:cfg['short']]
        self.depth = len(self.key_names())
        self.zcol = None

    def elsewhere(self):
        """The same environment on the other file system."""
        out = Env(dict(self.cfg, short=0, fs='file' if self.cfg.get('fs') == 'memory' else 'memory'))
        out.cfg = self.cfg
        return out

    def cleanup(self) -> None:
        for path in [str(self.root)] + [self.path] * bool(self.short):
            if self.fs.exists(path):
                self.fs.rm(path, recursive=True)

    # ------------------------------------------------------------- building
    def key_names(self):
        part = self.cfg['part']
        if part['kind'] == 'date':
            return UNITS[:'YMDhms'.index(part['res']) + 1]
        return tuple(part['names'])

    def handler(self):
        part = self.cfg['part']
        if part['kind'] == 'date':
            return partitioning.Date((self.cfg['axis'], ), part['res'])
        return partitioning.Sequence(tuple(part['names']), tuple(part['dtypes']))

    def axis_values(self, keys, ts):
        cfg = self.cfg
        if cfg['part']['kind'] == 'date':
            out = []
            for key, t in zip(keys, ts):
                fields = list(key) + [1, 1, 0, 0, 0][len(key) - 1:]
                start = numpy.datetime64(datetime.datetime(*fields), 's')
                out.append(start.astype(f'M8[{cfg["unit"]}]')
                           + numpy.timedelta64(t, cfg['unit']))
            return numpy.array(out, dtype=f'M8[{cfg["unit"]}]')
        if cfg.get('axis_int'):
            return numpy.array(ts, dtype='int64')
        return (numpy.datetime64(cfg['t0'], cfg['unit'])
                + numpy.array(ts, dtype='int64') * numpy.timedelta64(1, cfg['unit']))

    def variable(self, cls, name, keys, values):
        cfg = self.cfg
        if name == cfg['axis']:
            return cls(name, self.axis_values(keys, values), (cfg['dim'], ))
        spec = cfg['vars'].get(name) or {'dtype': 'int64', 'width': 0, 'second': False,
                                         'fill': None}
        arr = numpy.array(values, dtype='int64')
        if spec['width'] and arr.size == 0:
            arr = arr.reshape(0, spec['width'])
        mask = arr == MISSING
        dims = (cfg['dim'], spec.get('xdim', 'x')) if spec['width'] else (cfg['dim'], )
        arr = numpy.where(mask, 4321, arr).astype(spec['dtype'])
        if spec['second']:
            arr, mask, dims = arr.T, mask.T, dims[::-1]
        fill = self.fill(spec)
        if mask.any():
            arr = numpy.ma.masked_array(arr, mask, fill_value=fill)
        return cls(name, arr, dims, fill_value=fill,
                   compressor=COMPRESSORS[spec.get('compressor')],
                   attrs=[dataset.Attribute('units', 'm'), dataset.Attribute('n', 3)])

    @staticmethod
    def fill(spec):
        if spec['fill'] is None:
            return None
        if spec['fill'] == 'nan':
            return numpy.dtype(spec['dtype']).type('nan')
        return numpy.dtype(spec['dtype']).type(spec['fill'])

    def imm_variable(self, cls, name, value):
        spec = self.cfg['imm'][name]
        return cls(name, numpy.array(value, dtype=spec['dtype']),
                   tuple(spec['dims']), attrs=[dataset.Attribute('kind', 'imm')])

    def dataset(self, ds, delayed=False, chunk=0):
        cls = dataset.DelayedArray if delayed else dataset.Array
        out = [self.variable(cls, name, ds['keys'], values)
               for name, values in ds['cols'].items()]
        out += [self.imm_variable(cls, name, value)
                for name, value in (ds.get('imm') or {}).items()]
        if ds.get('reorder'):
            out = out[::-1]
        if delayed and chunk:
            for var in out:
                if var.array.ndim and 0 not in var.array.shape:
                    var.array = var.array.rechunk(chunk)
        return dataset.Dataset(
            out, attrs=[dataset.Attribute('title', 'zcv')],
            chunks=[dataset.Dimension(k, v) for k, v in self.cfg.get('chunks', {}).items()],
            block_size_limit=self.cfg.get('block'))

    def create(self, synchronizer=None):
        """Create the collection from its declaration."""
        cfg = self.cfg
        key = list(cfg['keys'][0])
        cols = {cfg['axis']: [0]}
        for name, spec in cfg['vars'].items():
            if name == cfg['axis']:
                continue
            if cfg['part']['kind'] == 'seq' and name in cfg['part']['names']:
                cols[name] = [key[cfg['part']['names'].index(name)]]
            else:
                cols[name] = [[1] * spec['width'] if spec['width'] else 1]
        zds = self.dataset({'keys': [key], 'cols': cols, 'imm': {
            name: spec['value'] for name, spec in cfg.get('imm', {}).items()}})
        kwargs = {}
        if synchronizer is not None:
            kwargs['synchronizer'] = synchronizer
        self.zcol = zcollection.create_collection(
            cfg['axis'], zds, self.handler(), self.path, filesystem=self.fs, **kwargs)
        return self.zcol

    def open(self, path=None, mode='w', **kwargs):
        return zcollection.open_collection(path or self.path, mode=mode,
                                           filesystem=self.fs, **kwargs)

    # ---------------------------------------------------------- observation
    def parse(self, path, root=None):
        """Key of a partition from its path, checking the names."""
        parts = str(path).rstrip('/').split('/')[-self.depth:]
        key = []
        for name, item in zip(self.key_names(), parts):
            left, _, right = item.partition('=')
            if left != name:
                raise ValueError(f'unexpected partition {path}')
            key.append(int(right))
        return key

    def partition_dirs(self, path=None):
        """Visible partition directories, read straight from the file system."""
        level = [path or self.path]
        for k in range(self.depth):
            nxt = []
            for item in level:
                for info in self.fs.ls(item, detail=True):
                    name = info['name'].rstrip('/').split('/')[-1]
                    if info['type'] == 'directory' and not name.startswith('.'):
                        nxt.append(info['name'].rstrip('/'))
            level = nxt
        return level

    def raw_columns(self, directory):
        """Content of one partition through zarr only."""
        group = zarr.open_consolidated(self.fs.get_mapper(directory), mode='r')
        out = {}
        for name in group:
            out[name] = self.raw_values(name, group[name])
        return out

    def raw_values(self, name, arr):
        """Values of a stored array, the partitioned dimension first."""
        values = arr[...]
        if arr.fill_value is not None and arr.dtype.kind != 'M' and not (
                arr.dtype.kind == 'f' and numpy.isnan(arr.fill_value)):
            values = numpy.ma.masked_equal(values, arr.fill_value)
        ax = arr.attrs['_ARRAY_DIMENSIONS'].index(self.cfg['dim'])
        if ax:
            values = values.swapaxes(0, ax)
        if name == self.cfg['axis']:
            return funcs.axis_ints(values, self.cfg)
        return funcs.ints(values)

    def disk(self, path=None, skip=()):
        out = []
        for item in self.partition_dirs(path):
            key = self.parse(item)
            out.append([key, {} if key in skip else self.raw_columns(item)])
        out.sort(key=lambda x: x[0])
        return out

    def raw_immutable(self, path=None):
        folder = f'{path or self.path}/.immutable'
        if not self.fs.exists(f'{folder}/.zmetadata'):
            return {}
        group = zarr.open_consolidated(self.fs.get_mapper(folder), mode='r')
        return {name: funcs.ints(group[name][...]) for name in group}

    def observe(self, zcol=None, path=None, skip=()):
        zcol = zcol or self.zcol
        path = path or self.path
        obs = {'disk': self.disk(path, skip)}
        obs['keys'] = [self.parse(x) for x in zcol.partitions()]
        obs['declared'] = sorted(zcol.metadata.variables)
        with self.fs.open(f'{path}/.zcollection') as stream:
            obs['declared_disk'] = sorted(
                v['name'] for v in json.load(stream)['dataset']['variables'])
        obs['imm'] = self.raw_immutable(path)
        return obs

    def snapshot(self, path=None):
        """Digest of every file below the path."""
        path = path or self.path
        out = {}
        for name, info in self.fs.find(path, withdirs=True, detail=True).items():
            out[name[len(path):]] = '' if info['type'] == 'directory' else hashlib.sha256(
                self.fs.cat_file(name)).hexdigest()
        return out

    def loaded(self, zds):
        cols, imm = funcs._describe(zds, self.cfg)
        return cols, imm

    # -------------------------------------------------------------- filters
    def expression(self, f):
        names = self.key_names()

        def rec(f):
            op = f[0]
            if op == 'all':
                return f'{names[0]} == {names[0]}'
            if op == 'none':
                return f'{names[0]} != {names[0]}'
            sym = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}
            if op in sym:
                return f'{names[f[1] - 1]} {sym[op]} {f[2]}'
            if op == 'mod':
                return f'{names[f[1] - 1]} % {f[2]} == {f[3]}'
            if op == 'in':
                return f'{names[f[1] - 1]} in ({" ".join(f"{x}," for x in f[2])})'
            if op == 'range':
                return f'{names[f[1] - 1]} in range({f[2]}, {f[3]})'
            if op in ('and', 'or'):
                return f'({rec(f[1])}) {op} ({rec(f[2])})'
            return f'not ({rec(f[1])})'
        return rec(f)

    def filter(self, f, style):
        """None, expression or function."""
        if style == 'absent':
            assert f == ['all']
            return None
        text = self.expression(f)
        if style == 'text':
            return text
        names = self.key_names()

        def func(keys):
            assert sorted(keys) == sorted(names), keys
            assert all(type(v) is int for v in keys.values()), keys
            return eval(text, {'range': range}, dict(keys))
        return func


MERGES = {'replace': None, 'concat': funcs.merge_concat, 'keep': funcs.merge_keep,
          'series': merging.merge_time_series}


def merge_args(env, merge):
    kwargs = {}
    if merge['kind'] == 'series' and merge['tol'] >= 0:
        kwargs['tolerance'] = (merge['tol'] if env.cfg.get('axis_int') and
                               env.cfg['part']['kind'] != 'date' else
                               numpy.timedelta64(merge['tol'], env.cfg['unit']))
    return MERGES[merge['kind']], kwargs
