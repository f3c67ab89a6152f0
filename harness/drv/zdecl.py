"""Declarations stored and reread; conversions of partition keys."""
from __future__ import annotations

import json
import pathlib
import pickle
import shutil
import sys
import uuid

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import drv  # noqa: E402
import fsspec  # noqa: E402
import funcs  # noqa: E402
import numcodecs  # noqa: E402
import numpy  # noqa: E402
import zcollection  # noqa: E402
from zcollection import dataset, meta, partitioning, view  # noqa: E402
from zcollection.partitioning import registry  # noqa: E402

CODECS = {
    'zlib1': numcodecs.Zlib(1), 'zlib9': numcodecs.Zlib(9), 'gzip': numcodecs.GZip(3),
    'bz2': numcodecs.BZ2(2), 'lzma': numcodecs.LZMA(), 'zstd': numcodecs.Zstd(5),
    'lz4': numcodecs.LZ4(), 'blosc': numcodecs.Blosc('lz4', 3),
    'blosc2': numcodecs.Blosc('zstd', 7, numcodecs.Blosc.BITSHUFFLE, 512),
}


def make_filter(name, dtype):
    size = numpy.dtype(dtype).itemsize
    return {
        'delta': lambda: numcodecs.Delta(dtype=dtype),
        'shuffle': lambda: numcodecs.Shuffle(size),
        'scale': lambda: numcodecs.FixedScaleOffset(offset=1, scale=10, dtype=dtype, astype='<i4'),
        'packbits': numcodecs.PackBits,
        'adler': numcodecs.Adler32, 'crc': numcodecs.CRC32,
    }[name]()


def value_of(item):
    """Value described in JSON (numpy objects, tuples, special floats)."""
    if isinstance(item, dict) and 'np' in item:
        return numpy.array(item['v'], dtype=item['np'])[()]
    if isinstance(item, dict) and 'tuple' in item:
        return tuple(value_of(x) for x in item['tuple'])
    if isinstance(item, dict) and 'float' in item:
        return float(item['float'])
    return item


def canon(value):
    if isinstance(value, numpy.ndarray):
        value = value.tolist()
    elif isinstance(value, numpy.generic):
        value = value.item()
    return json.dumps(value, sort_keys=True)


def fill_of(item, dtype):
    if item is None:
        return None
    dtype = numpy.dtype(dtype)
    if dtype.kind in 'mM':
        return numpy.array(-2**63 if item == 'NaT' else item, 'int64').astype(dtype)[()]
    if dtype.kind == 'S':
        return numpy.array(item.encode(), dtype)[()]
    if dtype.kind == 'c':
        return numpy.array(complex(item), dtype)[()]
    return numpy.array(float(item) if isinstance(item, str) and dtype.kind == 'f' else item,
                       dtype)[()]


def canon_fill(fill, dtype):
    if fill is None:
        return 'none'
    return numpy.array(fill, dtype=dtype).tobytes().hex()


def codec_text(codec):
    return 'none' if codec is None else json.dumps(codec.get_config(), sort_keys=True)


def attributes(attrs):
    return tuple(dataset.Attribute(k, value_of(v)) for k, v in attrs)


def attrs_text(attrs):
    return {a.name: canon(a.value) for a in attrs}


def var_text(v, dims=True):
    """Description of a declared variable, as the specification sees it."""
    native = v.dtype.newbyteorder('=')
    return {'dtype': v.dtype.str, 'dims': list(v.dimensions), 'attrs': attrs_text(v.attrs),
            'native': [native.str, canon_fill(v.fill_value, native)],
            'fill': canon_fill(v.fill_value, v.dtype), 'compressor': codec_text(v.compressor),
            'filters': [codec_text(x) for x in v.filters]}


def decl_text(axis, mds, handler):
    return {'axis': axis, 'part': f'{type(handler).__name__} '
            + getattr(handler, 'resolution', '') + json.dumps(handler.dtype()),
            'keys': list(handler.variables), 'dims': list(mds.dimensions),
            'chunks': {d.name: str(d.value) for d in mds.chunks},
            'block': str(mds.block_size_limit), 'attrs': attrs_text(mds.attrs),
            'vars': {k: var_text(v) for k, v in mds.variables.items()}}


class Decl:

    def __init__(self, case):
        self.case = case
        self.root = pathlib.Path(drv.WORK) / uuid.uuid4().hex[:12]
        self.fs = fsspec.filesystem(case['fs'])
        if case['fs'] == 'memory':
            self.root = pathlib.Path('/zcv') / uuid.uuid4().hex[:12]
        else:
            self.root.mkdir()
        self.path = str(self.root / case['base'])
        self.vpath = str(self.root / ('v' + case['base']))
        self.zcol = self.view = None
        self.rows = 0
        self.stale = False

    # expected descriptions, from the description given by the generator
    def want_var(self, v):
        dtype = numpy.dtype(v['dtype'])
        native = dtype.newbyteorder('=')
        return {'dtype': dtype.str, 'dims': v['dims'],
                'native': [native.str, canon_fill(fill_of(v['fill'], dtype), native)],
                'attrs': {k: canon(value_of(x)) for k, x in v['attrs']},
                'fill': canon_fill(fill_of(v['fill'], dtype), dtype),
                'compressor': codec_text(CODECS.get(v['compressor'])),
                'filters': [codec_text(make_filter(f, dtype.str)) for f in v['filters']]}

    def want(self):
        c = self.case
        dims = []
        for v in c['vars']:
            dims += [d for d in v['dims'] if d not in dims]
        return {'axis': c['axis'], 'part': {'date': 'Date ', 'seq': 'Sequence '}[c['part']['kind']]
                + c['part'].get('res', '') + json.dumps([[k, d] for k, d in zip(
                    c['part']['keys'], c['part']['dtypes'])]),
                'keys': c['part']['names'], 'dims': dims,
                'chunks': {k: str(v) for k, v in c['chunks']},
                'block': str(c['block'] or 134217728),
                'attrs': {k: canon(value_of(x)) for k, x in c['attrs']},
                'vars': {v['name']: self.want_var(v) for v in c['vars']}}

    def meta_var(self, v):
        dtype = numpy.dtype(v['dtype'])
        return meta.Variable(v['name'], dtype, dimensions=tuple(v['dims']),
                             attrs=attributes(v['attrs']),
                             compressor=CODECS.get(v['compressor']),
                             fill_value=fill_of(v['fill'], dtype),
                             filters=[make_filter(f, dtype.str) for f in v['filters']])

    def data(self, v, n, start=0):
        shape = tuple(n if d == self.case['dim'] else self.case['sizes'][d] for d in v['dims'])
        dtype = numpy.dtype(v['dtype'])
        if v['name'] == self.case['axis'] or v['name'] in self.case['part']['names']:
            return numpy.arange(start, start + n).astype('int64').astype(dtype)
        return numpy.zeros(shape, dtype)

    def variable(self, cls, v, n, start=0):
        m = self.meta_var(v)
        return cls(m.name, self.data(v, n, start), m.dimensions, attrs=m.attrs,
                   compressor=m.compressor, fill_value=m.fill_value, filters=m.filters)

    def build(self, vars_, n, start=0, delayed=False):
        cls = dataset.DelayedArray if delayed else dataset.Array
        c = self.case
        return dataset.Dataset([self.variable(cls, v, n, start) for v in vars_],
                               attrs=attributes(c['attrs']), block_size_limit=c['block'],
                               chunks=[dataset.Dimension(k, v) for k, v in c['chunks']])

    def handler(self):
        part = self.case['part']
        if part['kind'] == 'date':
            return partitioning.Date(part['names'], part['res'])
        return partitioning.Sequence(part['names'], part['dtypes'] if part['give'] else None)

    def op_create(self, step):
        c = self.case
        if c['how'] == 'meta':
            mds = meta.Dataset(
                tuple(self.want()['dims']), [self.meta_var(v) for v in c['vars']],
                attrs=attributes(c['attrs']), block_size_limit=c['block'],
                chunks=[meta.Dimension(k, v) for k, v in c['chunks']])
            self.zcol = zcollection.collection.Collection(
                c['axis'], mds, self.handler(), self.path, mode='w', filesystem=self.fs)
        else:
            self.zcol = zcollection.create_collection(
                c['axis'], self.build(c['vars'], 2, delayed=c['how'] == 'delayed'),
                self.handler(), self.path, filesystem=self.fs)
        self.vars = {v['name']: v for v in c['vars']}

    def given(self, v):
        if v.get('data'):
            return self.variable(dataset.Array, v, 2)
        return self.meta_var(v)

    def op_add(self, step):
        self.zcol.add_variable(self.given(step['given']))
        self.vars[step['name']] = step['given']

    def op_drop(self, step):
        self.zcol.drop_variable(step['name'])
        del self.vars[step['name']]

    def op_insert(self, step):
        zds = self.build(self.vars.values(), 3, self.rows, step['delayed'])
        self.rows += 3
        list(self.zcol.insert(zds))

    def op_reopen(self, step):
        self.zcol = self.reopen(self.path, 'w')

    def op_copy(self, step):
        target = str(self.root / uuid.uuid4().hex[:6])
        res = self.zcol.copy(target)
        step['copied'] = decl_text(res.axis, res.metadata, res.partitioning)

    def reopen(self, path, mode):
        fs = fsspec.filesystem(self.case['fs'])
        return zcollection.open_collection(path, mode=mode, filesystem=fs)

    def filter(self, text):
        if text == 'none':
            return None
        if text.startswith('func:'):
            return getattr(funcs, text[5:])
        return text

    def op_vcreate(self, step):
        self.view = zcollection.create_view(
            self.vpath, view.ViewReference(self.path, self.fs), filesystem=self.fs,
            filters=self.filter(step['filter']))

    def op_refused(self, step):
        """Creations over what exists, openings of what does not exist."""
        what = step['what']
        if what == 'recreate':
            zds = self.build(self.case['vars'][:1], 2)
            zcollection.create_collection(
                self.case['vars'][0]['name'], zds,
                partitioning.Sequence((self.case['vars'][0]['name'], )), self.path,
                filesystem=self.fs)
        elif what == 'vrecreate':
            zcollection.create_view(
                self.vpath if self.fs.exists(self.vpath) else self.path,
                view.ViewReference(self.path, self.fs), filesystem=self.fs, filters='1 == 2')
        elif what == 'lost':
            zcollection.open_collection(str(self.root / 'nowhere'), mode='w',
                                        filesystem=self.fs)
        elif what == 'vlost':
            zcollection.open_view(str(self.root / 'nowhere'), filesystem=self.fs)
        else:
            zcollection.open_collection(self.path, mode='a', filesystem=self.fs)

    def op_vfilter(self, step):
        self.revive()
        self.view.sync(filters=self.filter(step['filter']))

    def op_vadd(self, step):
        self.revive()
        self.view.add_variable(self.given(step['given']))

    def op_vdrop(self, step):
        self.revive()
        self.view.drop_variable(step['name'])

    def revive(self):
        self.view = zcollection.open_view(self.vpath, filesystem=self.fs)

    def view_text(self, item):
        flt = item.filters
        text = 'none' if flt is None else flt if isinstance(flt, str) else \
            'func:' + flt.__name__ if getattr(funcs, flt.__name__, None) is flt else 'unknown'
        return {'vars': {k: var_text(v) for k, v in item.metadata.variables.items()},
                'filter': text, 'ref': item.view_ref.partition_properties.dir == self.path}

    @staticmethod
    def loaded(zds):
        return zds and {'vars': {k: var_text(v) for k, v in zds.variables.items()},
                        'attrs': attrs_text(zds.attrs)}

    def run(self):
        steps = []
        for step in self.case['steps']:
            step = dict(step)
            if step['op'].startswith('v') and step['op'] != 'vcreate' and self.view is None:
                continue
            if 'given' in step:
                step['name'], step['var'] = step['given']['name'], self.want_var(step['given'])
            step['res'], step['error'] = 'ok', ''
            try:
                getattr(self, 'op_' + step['op'])(step)
            except Exception as exc:
                step['res'] = 'error'
                step['error'] = f'{type(exc).__name__}: {exc}'[:300]
            again = self.reopen(self.path, 'r')
            zcol = self.zcol
            step['now'] = decl_text(zcol.axis, zcol.metadata, zcol.partitioning)
            step['disk'] = decl_text(again.axis, again.metadata, again.partitioning)
            # equality is only defined for attributes that JSON preserves
            text = json.dumps(self.case)
            step['equal'] = '"tuple"' in text or '"float"' in text or (
                bool(again.metadata == zcol.metadata)
                and not bool(again.metadata != zcol.metadata))
            step['listed'] = {v.name: var_text(v) for v in again.variables()}
            step['loaded'] = self.loaded(again.load(delayed=self.case['lazy']))
            step['vloaded'] = None
            if step['op'] == 'insert':
                self.stale = True
            if step['op'] in ('vcreate', 'vfilter'):
                self.stale = False
            if self.view is not None and self.view.metadata.variables and not self.stale:
                step['vloaded'] = self.loaded(zcollection.open_view(
                    self.vpath, filesystem=self.fs).load(delayed=self.case['lazy']))
            if self.view is not None:
                step['view'] = self.view_text(self.view)
                step['vdisk'] = self.view_text(zcollection.open_view(
                    self.vpath, filesystem=fsspec.filesystem(self.case['fs'])))
            step.setdefault('copied', {})
            if not step['vloaded']:
                del step['vloaded']
            if not step['loaded']:
                del step['loaded']
            step.pop('given', None)
            steps.append(step)
        return {'kind': 'decl', 'decl': self.want(), 'steps': steps, 'case': self.case}


def dataset_for(case, handler):
    """One row lying in the partition."""
    if case['scheme'] == 'date':
        return dataset.Dataset([dataset.Array('t', numpy.array([case['inner']], 'M8[us]'),
                                              ('n', ))])
    return dataset.Dataset([
        dataset.Array(n, numpy.array([int(v)], d), ('n', ))
        for n, v, d in zip(case['names'], case['key'], case['dtypes'])])


def key_case(case):
    out = dict(case)
    date = case['scheme'] == 'date'
    names = case['names']

    def back(key):
        return [int(v) for _, v in key] if date else [str(v) for _, v in key]
    try:
        if date:
            handler = partitioning.Date(('t', ), case['res'])
        else:
            handler = partitioning.Sequence(names, case['dtypes'] if case['give'] else None)
        key = tuple((n, int(v)) for n, v in zip(names, case['key']))
        name = handler.join(key, '/')
        parsed = handler.parse(name)
        encoded = handler.encode(parsed)
        obs = {'name': name, 'parsed': back(parsed), 'fields': [k for k, _ in parsed],
               'parsed_path': back(handler.parse(case['base'] + '/' + name)),
               'decoded': back(handler.decode(encoded))}
        try:
            handler.parse(case['alien'])
            obs['foreign'] = False
        except ValueError:
            obs['foreign'] = True
        if date:
            instant = encoded[0].astype('M8[s]').astype('int64')
            obs['encoded'] = [int(instant // 86400), int(instant % 86400)]
            obs['decoded_inner'] = back(handler.decode(
                (numpy.datetime64(case['inner'], 'us').astype(f'M8[{case["unit"]}]'), )))
        else:
            obs['encoded'] = [str(v) for v in encoded]
            obs['decoded_inner'] = back(handler.decode(tuple(
                numpy.array(int(v), d)[()] for v, d in zip(case['key'], case['dtypes']))))
        obs['dtype_names'] = [k for k, _ in handler.dtype()]
        obs['dtypes'] = [d for _, d in handler.dtype()]
        (parts, _), = handler.split_dataset(dataset_for(case, handler), 'n')
        obs['split'] = '/'.join(parts)
        again = registry.get_codecs(json.loads(json.dumps(handler.get_config())))
        third = pickle.loads(pickle.dumps(handler))
        obs['again'] = [x.join(x.parse(name), '/') for x in (again, third)]
        obs['again_dtypes'] = [d for _, d in again.dtype()]
        if type(again) is not type(handler):
            obs['again_dtypes'] = []
        out['obs'] = obs
    except Exception as exc:
        out['obs'] = {'error': f'{type(exc).__name__}: {exc}'[:300]}
    return out


def execute(case):
    if case['kind'] == 'key':
        return key_case(case)
    drv.client()
    decl = Decl(case)
    try:
        return decl.run()
    finally:
        if case['fs'] == 'file':
            shutil.rmtree(decl.root, ignore_errors=True)
        else:
            decl.fs.rm(str(decl.root), recursive=True)


if __name__ == '__main__':
    drv.main(execute)
