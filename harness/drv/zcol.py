"""Executes histories of operations on a real collection and records them."""
from __future__ import annotations

import datetime
import json
import pathlib
import pickle
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import drv  # noqa: E402
import funcs  # noqa: E402
import numpy  # noqa: E402
import zarr  # noqa: E402
import zcv  # noqa: E402
import zcollection  # noqa: E402
from zcollection import meta  # noqa: E402


class History:

    def __init__(self, case):
        self.case = case
        self.env = zcv.Env(case['cfg'])
        self.env.create()
        self.copy = None
        self.copypath = None
        self.copyenv = None
        self.ncopy = 0
        self.damaged: list = []
        self.readonly = False

    def target(self, step):
        if step.get('on') == 'copy':
            return self.copy, self.copypath
        return self.env.zcol, self.env.path

    def env_of(self, step):
        return self.copyenv if step.get('on') == 'copy' else self.env

    def cleanup(self):
        self.env.cleanup()
        if self.copyenv is not None:
            self.copyenv.cleanup()

    def run(self):
        cfg = self.case['cfg']
        cfg0 = json.loads(json.dumps(cfg))
        vars_ = {k: v['width'] for k, v in cfg['vars'].items()}
        out = []
        for step in self.case['steps']:
            step = dict(step)
            step.setdefault('on', 'main')
            if step['op'] == 'insert':
                step.setdefault('validate', False)
                step['ds'].setdefault('other', '')
                step['npartitions'] = -1 if step['npartitions'] is None \
                    else step['npartitions']
            elif step['op'] == 'records':
                step.setdefault('chosen', [])
                step['props'] = []
            if step['on'] == 'copy' and self.copy is None:
                continue
            before = self.env.snapshot() if self.readonly else None
            try:
                getattr(self, 'op_' + step['op'])(step)
                step.setdefault('res', 'ok')
            except Exception as exc:
                step['res'] = 'error'
                step['error'] = f'{type(exc).__name__}: {exc}'[:300]
            step['nochange'] = before is None or self.env.snapshot() == before
            step['readonly'] = bool(self.env.zcol.is_readonly())
            for name, value in (('ret', []), ('cols', {}), ('immcols', {}), ('calls', []),
                                ('results', []), ('same', False), ('untouched', True),
                                ('args_unchanged', True), ('unreadable', []),
                                ('values', [])):
                step.setdefault(name, value)
            step['obs'] = self.env.observe(skip=self.damaged)
            step['obscopy'] = self.copyenv.observe(
                self.copy, self.copypath) if self.copy is not None else {}
            out.append(step)
        names = cfg['part']['names'] if cfg['part']['kind'] == 'seq' else [cfg['axis']]
        return {'vars': vars_, 'fixed': list(names),
                'axis': cfg['axis'], 'ident': cfg['ident'],
                'imm': {k: v['value'] for k, v in cfg.get('imm', {}).items()},
                'cfg': cfg0, 'steps': out}

    def op_insert(self, step):
        zcol, _ = self.target(step)
        func, kwargs = zcv.merge_args(self.env, step['merge'])
        zds = self.env.dataset(step['ds'], step['delayed'], step['chunk'])
        if step.get('xarray'):
            zds = zcv.as_xarray(zds)
        if step.get('validate'):
            kwargs['validate'] = True
            zds = zcv.redeclared(zds, step['ds']['other'])
        step['ret'] = [self.env.parse(x) for x in zcol.insert(
            zds, merge_callable=func,
            npartitions=None if step.get('npartitions') in (None, -1)
            else step['npartitions'], **kwargs)]

    def op_list(self, step):
        zcol, _ = self.target(step)
        step['ret'] = [self.env.parse(x) for x in zcol.partitions(
            filters=self.env.filter(step['filter'], step['style']),
            lock=step.get('lock', False), relative=step.get('relative', False))]

    def op_drop(self, step):
        zcol, _ = self.target(step)
        age = {'none': None, 'zero': datetime.timedelta(0),
               'day': datetime.timedelta(days=1)}[step['age']]
        step['ret'] = [self.env.parse(x) for x in zcol.drop_partitions(
            filters=self.env.filter(step['filter'], step['style']), timedelta=age)]
        if step['age'] == 'day':
            step['filter'] = ['none']

    def op_load(self, step):
        zcol, _ = self.target(step)
        zds = zcol.load(delayed=step['delayed'],
                        filters=self.env.filter(step['filter'], step['style']),
                        selected_variables=step['chosen'][0] if step['chosen'] else None)
        if zds is None:
            step['res'] = 'none'
            return
        step['cols'], step['immcols'] = self.env.loaded(zds)
        step['attrs'] = [str(a.value) for a in zds.attrs]

    def op_iload(self, step):
        zcol, path = self.target(step)
        sizes = {tuple(k): len(cols[self.env.cfg['ident']])
                 for k, cols in self.env_of(step).disk(path, self.damaged) if cols}
        index = []
        for key, first, n in step['index']:
            size = sizes.get(tuple(key))
            if size:
                index.append([key, first % size, first % size + n])
        step['index'] = index
        names = self.env.key_names()
        zds = zcol.load(delayed=step['delayed'],
                        indexer=[(tuple(zip(names, key)), slice(a, b))
                                 for key, a, b in index],
                        filters=self.env.filter(step['filter'], step['style']),
                        selected_variables=step['chosen'][0] if step['chosen'] else None)
        if zds is None:
            step['res'] = 'none'
            return
        step['cols'], step['immcols'] = self.env.loaded(zds)

    def op_map(self, step):
        zcol, _ = self.target(step)
        kwargs = dict(delayed=step['delayed'], extra='x',
                      filters=self.env.filter(step['filter'], step['style']),
                      selected_variables=step['chosen'][0] if step['chosen'] else None)
        if step['size']:
            kwargs['partition_size'] = step['size']
        if step['over']:
            if step['npart']:
                kwargs['npartition'] = step['npart']
            bag = zcol.map_overlap(
                funcs.map_info if step['info'] else funcs.map_plain,
                self.env.cfg, 7, depth=step['depth'], **kwargs)
        else:
            if step['npart']:
                kwargs['npartitions'] = step['npart']
            bag = zcol.map(funcs.map_plain, self.env.cfg, 7, **kwargs)
        names = list(self.env.key_names())
        results = []
        for key, value in bag.compute():
            assert [k for k, _ in key] == names, key
            results.append(dict(value, key=[v for _, v in key]))
        step['results'] = results

    def op_update(self, step):
        zcol, _ = self.target(step)
        u = step['u']
        funcs.CALLS.clear()
        targets = list(u['targets'])
        chosen = list(u['chosen'][0]) if u['chosen'] else None
        chosen0 = list(chosen) if chosen else None
        step['calls'] = funcs.CALLS
        step['args_unchanged'] = True
        try:
            zcol.update(
                funcs.update_info if u['info'] else funcs.update_plain,
                self.env.cfg, u, 7, extra='x', delayed=step['delayed'], depth=u['depth'],
                filters=self.env.filter(step['filter'], step['style']),
                npartitions=step['npart'] or None, trim=u['trim'],
                selected_variables=chosen,
                variables=None if u['inferred'] else targets)
        finally:
            step['calls'] = [list(x) for x in funcs.CALLS]
            step['args_unchanged'] = (targets == u['targets'] and chosen == chosen0)

    def op_updsum(self, step):
        zcol, _ = self.target(step)
        zcol.update(funcs.update_sum, step['name'], self.env.cfg, delayed=step['delayed'],
                    depth=step['depth'], npartitions=step['npart'] or None,
                    filters=self.env.filter(step['filter'], step['style']),
                    variables=[step['name']])

    def op_addvar(self, step):
        zcol, _ = self.target(step)
        var = step['var']
        spec = self.env.cfg['vars'].get(var['name']) or var['spec']
        self.env.cfg['vars'].setdefault(var['name'], var['spec'])
        try:
            zcol.add_variable(meta.Variable(
                var['name'], spec['dtype'], dimensions=tuple(var['dims']),
                fill_value=self.env.fill(spec),
                compressor=zcv.COMPRESSORS[spec.get('compressor')],
                attrs=[meta.Attribute('long_name', var['name'])]))
        finally:
            if var['name'] not in zcol.metadata.variables:
                self.env.cfg['vars'].pop(var['name'], None)

    def op_addset(self, step):
        self.op_addvar(step)
        self.op_update(dict(step, filter=['all'], style='absent', npart=0, delayed=False))

    def op_dropvar(self, step):
        zcol, _ = self.target(step)
        zcol.drop_variable(step['name'])

    def op_reopen(self, step):
        zcol, path = self.target(step)
        new = self.env_of(step).open(path)
        step['same'] = bool(new.metadata == zcol.metadata and new.axis == zcol.axis
                            and new.partitioning.get_config()
                            == zcol.partitioning.get_config()
                            and new.partition_properties == zcol.partition_properties)
        if step['on'] == 'copy':
            self.copy = new
        else:
            self.env.zcol = new

    def op_readonly(self, step):
        how = step['how']
        if how == 'pickle' and self.readonly:
            self.env.zcol = pickle.loads(pickle.dumps(self.env.zcol))
        elif how == 'default':
            self.env.zcol = zcollection.open_collection(self.env.path,
                                                        filesystem=self.env.fs)
        else:
            self.env.zcol = self.env.open(mode='r')
        self.readonly = True

    def op_records(self, step):
        """Other ways of reading."""
        zcol = self.env.zcol
        step['ret'] = [self.env.parse(x) for x, _ in zcol.iterate_on_records(
            relative=step['relative'])]
        assert {v.name for v in zcol.variables()} == set(zcol.metadata.variables)
        str(zcol)
        props = zcol.variables(step['chosen'][0] if step['chosen'] else None)
        step['props'] = [v.name for v in props
                         if v.metadata() == zcol.metadata.variables[v.name]]

    def op_copy(self, step):
        before = self.env.snapshot()
        self.ncopy += 1
        if self.copyenv is not None and self.copyenv is not self.env:
            self.copyenv.cleanup()
        self.copyenv = self.env if step['fs'] != 'other' else self.env.elsewhere()
        self.copypath = str(self.copyenv.root / f'copy{self.ncopy}' / 'x')
        self.copy = None
        try:
            kwargs = {}
            if step['fs']:
                kwargs['filesystem'] = self.copyenv.fs
            if step.get('mode'):
                kwargs['mode'] = step['mode']
            self.copy = self.env.zcol.copy(
                self.copypath, filters=self.env.filter(step['filter'], step['style']),
                npartitions=step['npart'] or None, **kwargs)
            # the copy is opened in the mode asked for
            granted = self.copy.is_readonly() == (step.get('mode') == 'r')
            if step.get('mode') == 'r':
                try:
                    self.copy.drop_partitions()
                    granted = False
                except Exception:
                    pass
                self.copy = zcollection.open_collection(
                    self.copypath, mode='w', filesystem=self.copyenv.fs)
            step['same'] = bool(granted and self.copy.metadata == self.env.zcol.metadata
                                and self.copy.axis == self.env.zcol.axis
                                and self.copy.partitioning.get_config()
                                == self.env.zcol.partitioning.get_config())
        finally:
            step['untouched'] = self.env.snapshot() == before
            step.setdefault('same', False)

    # damage and validation
    def readable(self, path, key):
        """Independent complete reading of one partition."""
        try:
            group = zarr.open_consolidated(self.env.fs.get_mapper(path), mode='r')
            for _, arr in group.arrays():
                arr[...]
        except Exception:
            return False
        return True

    def op_damage(self, step):
        env = self.env
        dirs = sorted(env.partition_dirs(), key=env.parse)
        rng = numpy.random.default_rng(step['seed'])
        unreadable = []
        for item in dirs:
            key = env.parse(item)
            if key not in step['which']:
                continue
            files = sorted(env.fs.find(item))
            chunks = [f for f in files if not f.split('/')[-1].startswith('.')]
            metas = [f for f in files if f.endswith('.zmetadata')]
            how = step['how']
            # Blosc does not know the size of what it reads: its answer on a
            # damaged file is not reproducible.
            blosc = {f.rsplit('/', 1)[0] for f in files if f.endswith('.zarray')
                     and b'blosc' in env.fs.cat_file(f)}
            chunks = [f for f in chunks if f.rsplit('/', 1)[0] not in blosc]
            # A missing chunk of a variable without fill value is read as
            # uninitialised memory.
            filled = [v for v, x in env.cfg['vars'].items() if x['fill'] is not None
                      and env.fs.exists(f'{item}/{v}/.zarray')]
            if how == 'nochunk':
                chunks = [f for f in chunks if f.split('/')[-2] in filled]
            if how == 'novar' and not filled:
                continue
            pool = chunks if how in ('garbage', 'truncate', 'flip', 'nochunk') else metas
            if not pool:
                continue
            name = pool[int(rng.integers(len(pool)))]
            data = env.fs.cat_file(name)
            if how == 'garbage':
                env.fs.pipe_file(name, bytes(rng.integers(
                    0, 256, len(data), dtype='uint8')))
            elif how == 'truncate':
                env.fs.pipe_file(name, data[:int(rng.integers(0, len(data)))])
            elif how == 'flip' and data:
                pos = int(rng.integers(len(data)))
                env.fs.pipe_file(name, data[:pos] + bytes([data[pos] ^ 0xff])
                                 + data[pos + 1:])
            elif how == 'nometa':
                env.fs.rm_file(name)
            elif how == 'badmeta':
                env.fs.pipe_file(name, data[:len(data) // 2])
            elif how == 'emptymeta':
                env.fs.pipe_file(name, b'')
            elif how == 'nochunk':
                env.fs.rm_file(name)
            elif how == 'empty':
                for other in files:
                    env.fs.rm_file(other)
                if env.cfg['fs'] == 'memory':
                    env.fs.mkdirs(item, exist_ok=True)
            elif how == 'novar':
                # the files of a variable are lost, not its declaration
                env.fs.rm(f'{item}/{filled[0]}', recursive=True)
            elif how == 'wrongmeta':
                env.fs.pipe_file(name, data.replace(b'"shape"', b'"shap_"', 1))
        for item in dirs:
            key = env.parse(item)
            if not self.readable(item, key):
                unreadable.append(key)
            elif key in step['which']:
                # damaged but readable: the values may have changed
                try:
                    env.raw_columns(item)
                except Exception:
                    unreadable.append(key)
        step['unreadable'] = unreadable
        self.damaged = unreadable
        step['values'] = env.disk(skip=unreadable)

    def op_validate(self, step):
        before = self.env.snapshot()
        ret = self.env.zcol.validate_partitions(
            filters=self.env.filter(step['filter'], step['style']), fix=step['fix'])
        step['ret'] = [self.env.parse(x) for x in ret]
        after = self.env.snapshot()
        if step['fix']:
            gone = {tuple(k) for k in step['ret']}
            kept = {name: v for name, v in before.items()
                    if v and self.key_of(name) not in gone}
            step['untouched'] = kept == {name: v for name, v in after.items() if v}
            self.damaged = [k for k in self.damaged if tuple(k) not in gone]
        else:
            step['untouched'] = before == after

    def key_of(self, name):
        parts = name.strip('/').split('/')
        if len(parts) <= self.env.depth or parts[0].startswith('.'):
            return None
        return tuple(self.env.parse('/'.join(parts[:self.env.depth])))


def execute(case):
    drv.client()
    hist = History(case)
    try:
        return hist.run()
    finally:
        hist.cleanup()


if __name__ == '__main__':
    drv.main(execute)
