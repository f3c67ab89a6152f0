"""Executes histories of operations on a real view and its reference."""
from __future__ import annotations

import json
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import drv  # noqa: E402
import funcs  # noqa: E402
import zarr  # noqa: E402
import zcol  # noqa: E402
import zcv  # noqa: E402
import zcollection  # noqa: E402
from zcollection import meta, view  # noqa: E402


class ViewHistory(zcol.History):

    def __init__(self, case):
        super().__init__(case)
        self.view = None
        self.vpath = str(self.env.root / 'the view' / 'v=1')

    def run(self):
        cfg = self.case['cfg']
        cfg0 = json.loads(json.dumps(cfg))
        vars_ = {k: v['width'] for k, v in cfg['vars'].items()}
        out = []
        for step in self.case['steps']:
            step = dict(step)
            before = self.env.snapshot()
            try:
                getattr(self, 'op_' + step['op'])(step)
                step.setdefault('res', 'ok')
            except Exception as exc:
                step['res'] = 'error'
                step['error'] = f'{type(exc).__name__}: {exc}'[:300]
            for name, value in (('ret', []), ('cols', {}), ('calls', []), ('results', []),
                                ('same', False)):
                step.setdefault(name, value)
            step['untouched'] = self.env.snapshot() == before
            step['obs'] = self.observe()
            out.append(step)
        names = cfg['part']['names'] if cfg['part']['kind'] == 'seq' else [cfg['axis']]
        return {'vars': vars_, 'fixed': list(names), 'axis': cfg['axis'],
                'ident': cfg['ident'],
                'imm': {k: v['value'] for k, v in cfg.get('imm', {}).items()},
                'cfg': cfg0, 'steps': out}

    def observe(self):
        env = self.env
        obs = {'disk': env.disk(), 'vdisk': [], 'vdeclared': [], 'vdeclared_disk': []}
        if self.view is None:
            return obs
        for item in env.partition_dirs(self.vpath):
            vals = {}
            axis: list = []
            for info in env.fs.ls(item, detail=True):
                name = info['name'].rstrip('/').split('/')[-1]
                arr = zarr.open_array(env.fs.get_mapper(info['name']), mode='r')
                if name == '.checksum':
                    axis = funcs.axis_ints(arr[...], env.cfg)
                    continue
                vals[name] = env.raw_values(name, arr)
            obs['vdisk'].append([env.parse(item), {'axis': axis, 'vals': vals}])
        obs['vdisk'].sort(key=lambda x: x[0])
        obs['vdeclared'] = sorted(self.view.metadata.variables)
        with env.fs.open(f'{self.vpath}/.view') as stream:
            obs['vdeclared_disk'] = sorted(
                v['name'] for v in json.load(stream)['metadata']['variables'])
        return obs

    def op_vcreate(self, step):
        self.view = zcollection.create_view(
            self.vpath, view.ViewReference(self.env.path, self.env.fs),
            filesystem=self.env.fs,
            filters=self.env.filter(step['filter'], step['style']))

    def op_vlist(self, step):
        step['ret'] = [self.env.parse(x) for x in self.view.partitions(
            filters=self.env.filter(step['filter'], step['style']))]

    def op_vadd(self, step):
        var = step['var']
        known = var['name'] in self.env.cfg['vars']
        spec = self.env.cfg['vars'].get(var['name']) or var['spec']
        self.env.cfg['vars'].setdefault(var['name'], var['spec'])
        try:
            self.view.add_variable(meta.Variable(
                var['name'], spec['dtype'], dimensions=tuple(var['dims']),
                fill_value=self.env.fill(spec),
                compressor=zcv.COMPRESSORS[spec.get('compressor')],
                attrs=[meta.Attribute('long_name', var['name'])]))
        finally:
            if not known and var['name'] not in self.view.metadata.variables:
                self.env.cfg['vars'].pop(var['name'], None)

    def op_vdrop(self, step):
        self.view.drop_variable(step['name'])

    def op_vload(self, step):
        zds = self.view.load(delayed=step['delayed'],
                             filters=self.env.filter(step['filter'], step['style']),
                             selected_variables=step['chosen'][0] if step['chosen'] else None)
        if zds is None:
            step['res'] = 'none'
            return
        step['cols'], _ = self.env.loaded(zds)

    def op_vmap(self, step):
        kwargs = dict(delayed=step['delayed'], extra='x',
                      filters=self.env.filter(step['filter'], step['style']),
                      selected_variables=step['chosen'][0] if step['chosen'] else None)
        if step['size']:
            kwargs['partition_size'] = step['size']
        elif step['npart']:
            kwargs['npartitions'] = step['npart']
        if step['over']:
            bag = self.view.map_overlap(
                funcs.map_info if step['info'] else funcs.map_plain,
                self.env.cfg, 7, depth=step['depth'], **kwargs)
        else:
            bag = self.view.map(funcs.map_plain, self.env.cfg, 7, **kwargs)
        names = list(self.env.key_names())
        results = []
        for key, value in bag.compute():
            assert [k for k, _ in key] == names, key
            results.append(dict(value, key=[v for _, v in key]))
        step['results'] = results

    def op_vupdate(self, step):
        u = step['u']
        funcs.CALLS.clear()
        try:
            self.view.update(
                funcs.update_info if u['info'] else funcs.update_plain,
                self.env.cfg, u, 7, extra='x', delayed=step['delayed'], depth=u['depth'],
                filters=self.env.filter(step['filter'], step['style']),
                npartitions=step['npart'] or None, trim=u['trim'],
                selected_variables=list(u['chosen'][0]) if u['chosen'] else None)
        finally:
            step['calls'] = [list(x) for x in funcs.CALLS]

    def op_vsync(self, step):
        f = step.get('filter')
        pred = self.view.sync(self.env.expression(f) if f else None)
        step['ret'] = [self.env.parse(x) for x in self.view.partitions(filters=pred)]

    def op_vsynced(self, step):
        res = self.view.is_synced()
        assert isinstance(res, bool)
        step['same'] = res

    def op_vreopen(self, step):
        new = zcollection.open_view(self.vpath, filesystem=self.env.fs)
        step['same'] = bool(new.metadata == self.view.metadata)
        self.view = new


def execute(case):
    drv.client()
    hist = ViewHistory(case)
    try:
        return hist.run()
    finally:
        hist.env.cleanup()


if __name__ == '__main__':
    drv.main(execute)
