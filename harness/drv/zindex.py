"""Executes histories on an index of a collection (and of a view)."""
from __future__ import annotations

import json
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import drv  # noqa: E402
import funcs  # noqa: E402
import pyarrow.compute  # noqa: E402
import pyarrow.parquet  # noqa: E402
import zview  # noqa: E402
from zcollection import indexing  # noqa: E402


class GroupIndexer(indexing.Indexer):

    def dtype(self, /, **kwargs):
        return super().dtype() + [('pas', 'int16'), ('flag', 'S1')]

    @classmethod
    def create(cls, path, zds, *, filesystem=None, **kwargs):
        return super()._create(path, zds, meta={'attribute': b'value'},
                               filesystem=filesystem)

    def update(self, zds, *, partition_size=None, npartitions=None, **kwargs):
        super()._update(zds, funcs.index_entries, partition_size, npartitions,
                        dtype=self.dtype(), **kwargs)


class IndexHistory(zview.ViewHistory):

    def __init__(self, case):
        super().__init__(case)
        self.ipath = str(self.env.root / 'index.parquet')
        self.index = None

    def run(self):
        cfg = self.case['cfg']
        cfg0 = json.loads(json.dumps(cfg))
        vars_ = {k: v['width'] for k, v in cfg['vars'].items()}
        self.index = GroupIndexer.create(self.ipath, self.env.zcol, filesystem=self.env.fs)
        out = []
        for step in self.case['steps']:
            step = dict(step)
            try:
                getattr(self, 'op_' + step['op'])(step)
                step.setdefault('res', 'ok')
            except Exception as exc:
                step['res'] = 'error'
                step['error'] = f'{type(exc).__name__}: {exc}'[:300]
            for name, value in (('ret', []), ('cols', {}), ('same', False)):
                step.setdefault(name, value)
            step['table'] = step['table_disk'] = []
            if self.env.fs.exists(self.ipath):
                step['table'] = self.rows(self.index.table)
                step['table_disk'] = self.rows(pyarrow.parquet.read_table(
                    self.ipath, filesystem=self.env.fs))
            step.pop('calls', None)
            out.append(step)
        names = cfg['part']['names'] if cfg['part']['kind'] == 'seq' else [cfg['axis']]
        return {'vars': vars_, 'fixed': list(names), 'axis': cfg['axis'],
                'ident': cfg['ident'], 'kind': self.case['kind'], 'grp': 'grp',
                'imm': {k: v['value'] for k, v in cfg.get('imm', {}).items()},
                'cfg': cfg0, 'steps': out}

    def rows(self, table):
        names = self.env.key_names()
        cols = [table[n].to_pylist() for n in names]
        keys = [list(k) for k in zip(*cols)]
        return [[k, a, b, g, int(f)] for k, a, b, g, f in zip(
            keys, *(table[n].to_pylist() for n in ('start', 'stop', 'pas', 'flag')))]

    def op_iupdate(self, step):
        kwargs = {}
        if step['size']:
            kwargs['partition_size'] = step['size']
        elif step['npart']:
            kwargs['npartitions'] = step['npart']
        f = self.env.filter(step['filter'], step['style'])
        if f is not None:
            kwargs['filters'] = f
        self.index.update(self.env.zcol, kind=self.case['kind'], grp='grp',
                          delayed=step['delayed'], **kwargs)

    def op_ireopen(self, step):
        if not self.env.fs.exists(self.ipath):
            step['same'] = True
            return
        meta = dict(self.index.meta)
        self.index = GroupIndexer.open(self.ipath, filesystem=self.env.fs)
        step['same'] = bool({k: v for k, v in self.index.meta.items()
                             if k == 'attribute'} == meta or self.index.meta == meta)

    def query(self, q):
        names = self.env.key_names()
        columns = {}
        for column, values, scalar in q['criteria']:
            if column.isdigit():
                column = names[int(column) - 1]
            if column == 'flag':
                values = [str(v).encode() for v in values]
            columns[column] = values[0] if scalar else values
        kwargs = {}
        if q['op'] != 'and' or q['explicit']:
            kwargs['logical_op'] = q['op']
        if q['mask']:
            kwargs['mask'] = pyarrow.compute.greater_equal(
                self.index.table['start'], q['mask'][0])
        return self.index.query(columns, only_partition_keys=q['keysonly'], **kwargs)

    def op_iquery(self, step):
        if not self.env.fs.exists(self.ipath):
            return
        names = list(self.env.key_names())
        ret = []
        for key, sl in self.query(step['q']):
            key = dict(key)
            assert sl.step is None
            item = {'key': [int(key.pop(n)) for n in names],
                    'start': int(sl.start), 'stop': int(sl.stop), 'extra': []}
            if not step['q']['keysonly']:
                item['extra'] = [int(key.pop('pas')), int(key.pop('flag'))]
            assert not key, key
            ret.append(item)
        step['ret'] = ret

    def load(self, step, target):
        if not self.env.fs.exists(self.ipath):
            step['res'] = 'none'
            return
        zds = target.load(delayed=step['delayed'], indexer=self.query(step['q']),
                          filters=self.env.filter(step['filter'], step['style']),
                          selected_variables=step['chosen'][0] if step['chosen'] else None)
        if zds is None:
            step['res'] = 'none'
            return
        step['cols'], _ = self.env.loaded(zds)

    def op_iload(self, step):
        self.load(step, self.env.zcol)

    def op_viload(self, step):
        self.load(step, self.view)


def execute(case):
    drv.client()
    hist = IndexHistory(case)
    try:
        return hist.run()
    finally:
        hist.env.cleanup()


if __name__ == '__main__':
    drv.main(execute)
