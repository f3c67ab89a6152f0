"""Random configurations and histories (concrete arguments of the operations)."""
from __future__ import annotations

import datetime

MISSING = -999999999
DATE_KEYS = {
    'Y': [[1999], [2000], [2001], [2019], [2020], [2100]],
    'M': [[2019, 2], [2019, 10], [2019, 12], [2020, 1], [2020, 2], [2020, 11]],
    'D': [[2019, 12, 9], [2019, 12, 10], [2019, 12, 31], [2020, 1, 1], [2020, 2, 29],
          [2020, 10, 2]],
    'h': [[2019, 12, 31, 9], [2019, 12, 31, 23], [2020, 1, 1, 0], [2020, 1, 1, 1],
          [2020, 1, 1, 10], [2020, 1, 2, 2]],
    'm': [[2019, 12, 31, 23, 59], [2020, 1, 1, 0, 0], [2020, 1, 1, 0, 2],
          [2020, 1, 1, 0, 10], [2020, 1, 1, 1, 1]],
    's': [[2019, 12, 31, 23, 59, 59], [2020, 1, 1, 0, 0, 0], [2020, 1, 1, 0, 0, 2],
          [2020, 1, 1, 0, 0, 10], [2020, 1, 1, 0, 1, 1]],
}
SEQ_VALUES = [[1, 2, 10, 11], [0, 9, 10, 100], [-11, -2, 3, 20], [5, 6, 7, 8]]
BASES = ['col', 'a b/col', 'year=2019/col', 'x/month=03', 'a=7/b=12', 'col.zarr', 'k/col=1',
         'year=1999/month=01/day=02/c']


def pick(rng, weights: dict):
    names = list(weights)
    return rng.choices(names, [weights[n] for n in names])[0]


def config(rng, *, imm=None, fs=None, axis_is_dim=None, nvars=None, kinds=None, many=0.):
    kind = pick(rng, kinds or {'date': 3, 'seq': 3})
    cfg = {'axis': 'time', 'ident': 'ident'}
    same = rng.random() < .4 if axis_is_dim is None else axis_is_dim
    cfg['dim'] = 'time' if same else 'num'
    cfg['unit'] = rng.choice(['ns', 'us', 'ms'])
    cfg['t0'] = 0
    if kind == 'date':
        res = pick(rng, {'Y': 1, 'M': 3, 'D': 3, 'h': 2, 'm': 1, 's': 1})
        cfg['part'] = {'kind': 'date', 'res': res}
        keys = rng.sample(DATE_KEYS[res], rng.randint(3, len(DATE_KEYS[res])))
        if res != 'Y' and rng.random() < .5:
            # keys sharing some of their components
            pools = [rng.sample(p, 2) for p in (
                [2019, 2020, 2021], [1, 2, 11], [1, 3, 28], [0, 9, 10], [0, 5, 59],
                [0, 7, 59])['YMDhms'.index(res)::-1]][::-1]
            keys = []
            while len(keys) < min(rng.randint(3, 6), 2**len(pools)):
                key = [rng.choice(p) for p in pools]
                if key not in keys:
                    keys.append(key)
    else:
        n = pick(rng, {1: 2, 2: 3, 3: 2})
        names = ['cycle', 'pass_', 'part'][:n]
        cfg['part'] = {'kind': 'seq', 'names': names,
                       'dtypes': [rng.choice(['int64', 'int32', 'int16'])] * n}
        pools = [rng.choice(SEQ_VALUES) for _ in range(n)]
        if n > 1 and rng.random() < .5:
            pools = [rng.sample(p, 2) for p in pools]
        size = 1
        for p in pools:
            size *= len(p)
        keys = []
        while len(keys) < min(rng.randint(3, 6), size):
            key = [rng.choice(p) for p in pools]
            if key not in keys:
                keys.append(key)
        cfg['axis_int'] = rng.random() < .3
    cfg['large'] = bool(many)
    if rng.random() < many:
        keys = many_keys(rng, cfg['part'])
    cfg['keys'] = sorted(keys)
    variables = {'time': {'dtype': 'M8', 'width': 0, 'second': False, 'fill': None},
                 'ident': {'dtype': rng.choice(['int64', 'int32', 'float64']), 'width': 0,
                           'second': False, 'fill': None}}
    if kind == 'seq':
        for name, dtype in zip(names, cfg['part']['dtypes']):
            variables[name] = {'dtype': dtype, 'width': 0, 'second': False, 'fill': None}
    for k in range(rng.randint(1, 3) if nvars is None else nvars):
        variables[f'v{k}'] = spec_var(rng)
    cfg['vars'] = variables
    cfg['imm'] = {}
    if rng.random() < (.35 if imm is None else imm):
        cfg['imm']['lon'] = {'dtype': 'int64', 'dims': ['lon'],
                             'value': [1, 2, 3]}
        if rng.random() < .6:
            cfg['imm']['grid'] = {'dtype': 'float64', 'dims': ['lat', 'lon'],
                                  'value': [[1, 2, 3], [4, 5, 6]]}
    if rng.random() < .5:
        cfg['chunks'] = {cfg['dim']: rng.choice([1, 2, 3, 100])}
        if rng.random() < .5:
            cfg['chunks']['x'] = rng.choice([1, 2])
    if rng.random() < .2:
        cfg['block'] = rng.choice([16, 64, 1024])
    cfg['base'] = rng.choice(BASES) if rng.random() < .5 else 'col'
    cfg['fs'] = fs or ('memory' if rng.random() < .12 else 'file')
    if cfg['fs'] == 'memory' and rng.random() < .4:
        cfg['short'] = rng.choice([1, 9])
    return cfg


def many_keys(rng, part):
    """Dozens of consecutive partitions, across the boundaries of the units."""
    n = rng.randint(10, 26)
    if part['kind'] == 'seq':
        nkeys = len(part['names'])
        first = rng.choice([-3, 0, 1, 95])
        if nkeys == 1:
            return [[first + k] for k in range(n)]
        side = rng.choice([2, 3, 5])
        return [[first + k // side] + [7] * (nkeys - 2) + [9 + k % side] for k in range(n)]
    size = {'Y': 365.25 * 86400, 'M': 30.4 * 86400, 'D': 86400, 'h': 3600, 'm': 60,
            's': 1}[part['res']]
    count = 'YMDhms'.index(part['res']) + 1
    first = datetime.datetime(2019, 12, 31, 23, 59, 50) - datetime.timedelta(
        seconds=size * rng.randint(0, n))
    keys = []
    for k in range(n):
        date = first + datetime.timedelta(seconds=size * k)
        key = [date.year, date.month, date.day, date.hour, date.minute, date.second][:count]
        if key not in keys:
            keys.append(key)
    return keys


def spec_var(rng, width=None):
    width = rng.choice([0, 0, 2, 3]) if width is None else width
    dtype = rng.choice(['int64', 'int32', 'float64', 'float32'])
    fill = rng.choice([-1, 2147483647, 0]) if dtype[0] == 'i' else rng.choice(
        [1e20, -1.0, 'nan', 0.0])
    out = {'dtype': dtype, 'width': width, 'second': bool(width) and rng.random() < .35,
           'fill': fill, 'compressor': rng.choice([None, 'zlib', 'blosc', 'zstd'])}
    if width:
        out['xdim'] = f'x{width}'
    return out


class Maker:
    """Generates the steps of one history, tracking what is needed to make
    meaningful arguments (not the expected results)."""

    def __init__(self, rng, cfg, style=None):
        self.rng = rng
        self.cfg = cfg
        self.next = 1
        self.sides = {'main': dict(cfg['vars'])}
        self.vars = self.sides['main']
        self.keys: list = []
        self.nadded = 0
        self.copyfs = cfg['fs']
        self.steps: list = []
        # how often a partition receives dozens of rows
        self.large = .08 if cfg.get('large') else 0.
        self.series = not cfg.get('axis_int') and rng.random() < .75

    def filter(self, p_all=.4):
        rng = self.rng
        n = len(self.cfg['keys'][0])

        def atom():
            ix = rng.randint(1, n)
            val = rng.choice(self.cfg['keys'])[ix - 1] + rng.choice([0, 0, 0, -1, 1])
            op = rng.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge', 'mod', 'in', 'range'])
            if op == 'mod':
                m = rng.choice([2, 3, 10])
                return ['mod', ix, m, rng.randrange(m)]
            if op == 'in':
                vals = {k[ix - 1] for k in rng.sample(
                    self.cfg['keys'], rng.randint(1, min(3, len(self.cfg['keys']))))}
                return ['in', ix, sorted(vals)]
            if op == 'range':
                return ['range', ix, val, val + rng.choice([0, 1, 2, 50])]
            return [op, ix, val]

        def term(depth):
            r = rng.random()
            if depth == 0 or r < .45:
                return atom()
            if r < .6:
                return ['not', term(depth - 1)]
            return [rng.choice(['and', 'or']), term(depth - 1), term(depth - 1)]

        r = rng.random()
        if r < p_all:
            return ['all'], rng.choice(['absent', 'absent', 'text', 'func'])
        if r < p_all + .05:
            return ['none'], rng.choice(['text', 'func'])
        return term(2), rng.choice(['text', 'func'])

    def chosen(self, p=.3, need=()):
        rng = self.rng
        if rng.random() > p:
            return []
        names = list(self.vars) + list(self.cfg['imm'])
        sel = rng.sample(names, rng.randint(1, len(names)))
        for name in need:
            if name not in sel:
                sel.append(name)
        return [sel]

    def rows(self, keys, nmax=4):
        rng = self.rng
        out = []
        for key in keys:
            n = rng.randint(1, nmax)
            ts = sorted(rng.sample(range(0, 14 if nmax < 8 else 60), n))
            if rng.random() < .15:
                ts = sorted(rng.choice(range(0, 8)) for _ in range(n))
            out += [(key, t) for t in ts]
        return out

    def ds(self, rows, omit=.15, masked=.12):
        rng, cfg = self.rng, self.cfg
        cols = {}
        idents = list(range(self.next, self.next + len(rows)))
        self.next += len(rows)
        for name, spec in self.vars.items():
            if name == 'time':
                cols[name] = [t for _, t in rows]
            elif name == 'ident':
                cols[name] = idents
            elif cfg['part']['kind'] == 'seq' and name in cfg['part']['names']:
                ix = cfg['part']['names'].index(name)
                cols[name] = [k[ix] for k, _ in rows]
            else:
                if spec['fill'] is not None and rng.random() < omit:
                    continue
                shift = rng.randint(0, 50)
                p = masked if spec['fill'] is not None else 0

                def val(x):
                    return MISSING if rng.random() < p else x
                if spec['width']:
                    cols[name] = [[val(1000 * i + 10 * j + shift)
                                   for j in range(spec['width'])] for i in idents]
                else:
                    cols[name] = [val(1000 * i + shift) for i in idents]
        # an omitted variable needs its dimensions to be in the dataset
        for name, spec in self.vars.items():
            if name not in cols and spec['width'] and not any(
                    self.vars[v]['width'] == spec['width'] for v in cols):
                cols[name] = [[1000 * i + j for j in range(spec['width'])] for i in idents]
        ds = {'keys': [list(k) for k, _ in rows], 'cols': cols,
              'reorder': rng.random() < .2}
        imm = {}
        for name, spec in cfg['imm'].items():
            if spec['dims'] == ['lon']:
                imm[name] = [self.next + k for k in range(3)]
            else:
                imm[name] = [[self.next + 3 * j + k for k in range(3)] for j in range(2)]
        ds['imm'] = imm
        return ds

    def insert(self, *, merge=None, bad=0., keys=None, nkeys=None, omit=.15, on='main'):
        rng, cfg = self.rng, self.cfg
        if keys is None:
            total = len(cfg['keys'])
            n = nkeys or rng.choice([1, 1, 2, 3, total] if total < 10 else [1, 3, total, total])
            keys = sorted(rng.sample(cfg['keys'], min(n, total)))
        rows = self.rows(keys, 25 if len(keys) < 5 and rng.random() < self.large else 4)
        merge = dict(merge or {'replace': 2, 'series': 3, 'concat': 1, 'keep': .5})
        # the merge of time series needs dates, stored in order
        if not self.series:
            merge.pop('series', None)
        elif 'series' in merge:
            merge.pop('concat', None)
        kind = pick(rng, merge)
        ds = self.ds(rows, omit=omit)
        if rng.random() < bad:
            how = rng.choice(['unknown', 'unsorted', 'empty'])
            if how == 'unknown':
                ds['cols']['stranger'] = list(range(len(rows)))
            elif how == 'unsorted' and len(keys) > 1:
                order = list(range(len(rows)))
                order = order[len(order) // 2:] + order[:len(order) // 2]
                rng.choice([lambda: None, order.reverse])()
                moved = [ds['keys'][k] for k in order]
                if moved != sorted(moved):
                    ds['keys'] = moved
                    ds['cols'] = {v: [c[k] for k in order]
                                  for v, c in ds['cols'].items()}
            elif how == 'empty':
                ds['keys'] = []
                ds['cols'] = {v: [] for v in ds['cols']}
        step = {'op': 'insert', 'ds': ds, 'on': on,
                'merge': {'kind': kind, 'tol': rng.choice([-1, -1, 0, 1, 2, 5])
                          if kind == 'series' else -1},
                'delayed': rng.random() < .3, 'chunk': rng.choice([0, 0, 1, 2]),
                'npartitions': rng.choice([None, None, 1, 2, 5])}
        if ds['keys'] and cfg.get('unit', 'ns') == 'ns' and rng.random() < .2:
            step['xarray'] = True
        elif bad and rng.random() < .2:
            # the declaration of the dataset is compared with that of the collection
            step['validate'] = True
            ds['reorder'] = False
            if (rng.random() < .6 or self.nadded or set(self.vars) != set(cfg['vars'])
                    or list(ds['cols']) != list(self.vars)):
                ds['other'] = rng.choice(['dtype', 'fill', 'units', 'title', 'chunks',
                                          'compressor', 'block'])
        elif bad and rng.random() < .04:
            step['npartitions'] = 0
        self.keys = sorted({tuple(k) for k in self.keys} | {tuple(k) for k in keys})
        return step

    def list(self, on='main'):
        f, style = self.filter(.2)
        return {'op': 'list', 'filter': f, 'style': style, 'on': on,
                'lock': self.rng.random() < .3, 'relative': self.rng.random() < .3}

    def drop(self, on='main'):
        f, style = self.filter(.15)
        return {'op': 'drop', 'filter': f, 'style': style, 'on': on,
                'age': 'none' if 'memory' in (self.cfg['fs'], self.copyfs if on == 'copy'
                                              else '') else
                self.rng.choice(['none'] * 5 + ['zero', 'day'])}

    def load(self, on='main', p_all=.5):
        f, style = self.filter(p_all)
        return {'op': 'load', 'filter': f, 'style': style, 'on': on,
                'chosen': self.chosen(), 'delayed': self.rng.random() < .5}

    def iload(self, on='main'):
        """Loading through an index: slices of rows of some partitions."""
        rng = self.rng
        step = dict(self.load(on, .3), op='iload')
        # [key, first row, number of rows], taken modulo the size of the partition
        step['index'] = [[rng.choice(self.cfg['keys']), rng.randint(0, 9),
                          rng.choice([1, 1, 2, 3, 20])]
                         for _ in range(rng.choice([1, 2, 4, 8]))]
        return step

    def map(self, over=None, on='main'):
        rng = self.rng
        f, style = self.filter(.5)
        over = rng.random() < .5 if over is None else over
        size = rng.choice([0, 0, 1, 2, 3])
        return {'op': 'map', 'filter': f, 'style': style, 'over': over, 'on': on,
                'depth': rng.choice([0, 1, 1, 2, 3, 9]) if over else 0,
                'size': size, 'npart': 0 if size else rng.choice([0, 0, 1, 2, 4]),
                'info': over and rng.random() < .7, 'delayed': rng.random() < .5,
                'chosen': self.chosen(need=['ident', 'time'])}

    def update(self, bad=.08, on='main'):
        rng = self.rng
        f, style = self.filter(.45)
        names = [n for n in self.vars if n not in ('time', 'ident')
                 and n not in self.cfg['part'].get('names', ())]
        targets = rng.sample(names, rng.randint(1, min(2, len(names)))) if names else []
        depth = rng.choice([0, 0, 0, 1, 1, 2, 5])
        info = depth > 0 and rng.random() < .7
        fills = [self.vars[n]['fill'] for n in targets]
        kinds = ['const', 'linear', 'window', 'window'] + (
            [] if None in fills else ['mask'])
        u = {'kind': rng.choice(kinds),
             'c': rng.randint(1 if 0 in fills else 0, 40), 'depth': depth, 'info': info,
             'trim': not (info and rng.random() < .3), 'targets': targets,
             'inferred': rng.random() < .4, 'chosen': []}
        if not targets or rng.random() < bad:
            u['targets'] = targets + ['stranger']
        elif rng.random() < .3:
            sel = ['ident'] + [n for n in self.vars if rng.random() < .5 and n != 'ident']
            if u['inferred'] and depth:
                sel += [n for n in targets if n not in sel]
            u['chosen'] = [sel]
        delayed = rng.random() < .5
        # Known finding: with an overlap, tasks run side by side read the
        # variables of the neighbours while these are rewritten.  Only the
        # variables read by the function are read when they are delayed.
        npart = rng.choice([0, 0, 1, 2, 7]) if delayed or not depth else 1
        return {'op': 'update', 'u': u, 'filter': f, 'style': style, 'on': on,
                'delayed': delayed, 'npart': npart}

    def addvar(self, bad=.3, on='main'):
        rng, cfg = self.rng, self.cfg
        widths = sorted({(s['width'], s['second']) for s in self.vars.values()})
        width, second = rng.choice(widths)
        spec = spec_var(rng, width)
        spec['second'] = second
        if width:
            spec['xdim'] = f'x{width}'
        self.nadded += 1
        name = f'n{self.nadded}'
        dims = [cfg['dim'], spec['xdim']] if width else [cfg['dim']]
        if second:
            dims.reverse()
        var = {'name': name, 'width': width, 'spec': spec, 'dims': dims,
               'hasdim': True, 'knowndims': True}
        if rng.random() < bad:
            how = rng.choice(['exists', 'nodim', 'unknown', 'imm'])
            if how == 'exists':
                var['name'] = rng.choice(list(self.vars))
            elif how == 'imm' and cfg['imm']:
                var['name'] = 'lon'
            elif how == 'nodim':
                var['dims'] = ['lon'] if cfg['imm'] else ['other']
                var['hasdim'] = False
            else:
                var['dims'] = [cfg['dim'], 'other']
                var['knowndims'] = False
        else:
            self.vars[name] = spec
        return {'op': 'addvar', 'var': var, 'on': on}

    def addset(self, on='main'):
        """A variable without fill value, given its values at once."""
        step = self.addvar(bad=0, on=on)
        step['op'] = 'addset'
        step['var']['spec']['fill'] = None
        step['u'] = {'kind': 'const', 'c': self.rng.choice([0, 0, 3]), 'depth': 0,
                     'info': False, 'trim': True, 'targets': [step['var']['name']],
                     'inferred': False, 'chosen': []}
        return step

    def dropvar(self, bad=.25, on='main'):
        rng, cfg = self.rng, self.cfg
        names = [n for n in self.vars if n not in ('time', 'ident')
                 and n not in cfg['part'].get('names', ())]
        if not names or rng.random() < bad:
            pool = ['stranger', 'time'] + list(cfg['imm']) + list(cfg['part'].get('names', ()))
            return {'op': 'dropvar', 'name': rng.choice(pool), 'on': on}
        name = rng.choice(names)
        del self.vars[name]
        return {'op': 'dropvar', 'name': name, 'on': on}

    def readonly(self, on='main'):
        return {'op': 'readonly', 'how': self.rng.choice(['default', 'explicit', 'pickle'])}

    def records(self, on='main'):
        self.vars = self.sides['main']
        return {'op': 'records', 'relative': self.rng.random() < .5,
                'chosen': self.chosen(1.)}

    def reopen(self, on='main'):
        return {'op': 'reopen', 'on': on}

    def copy(self, on='main'):
        f, style = self.filter(.4)
        self.sides['copy'] = dict(self.sides['main'])
        fs = self.rng.choice([False, False, True, 'other'])
        self.copyfs = {'file': 'memory', 'memory': 'file'}[self.cfg['fs']] \
            if fs == 'other' else self.cfg['fs']
        return {'op': 'copy', 'filter': f, 'style': style,
                'npart': self.rng.choice([0, 1, 2, 5]), 'fs': fs,
                'mode': self.rng.choice(['', '', 'w', 'r', 'r'])}

    def damage(self, on='main'):
        rng = self.rng
        which = [list(k) for k in self.cfg['keys'] if rng.random() < .4]
        return {'op': 'damage', 'which': which, 'seed': rng.randint(0, 10**6),
                'how': rng.choice(['garbage', 'truncate', 'flip', 'nometa', 'badmeta',
                                   'emptymeta', 'nochunk', 'empty', 'novar', 'wrongmeta'])}

    def validate(self, on='main'):
        f, style = self.filter(.5)
        return {'op': 'validate', 'filter': f, 'style': style,
                'fix': self.rng.random() < .5}


def history(rng, cfg, mix: dict, n: int, first=None, opts: dict | None = None,
            on_copy: float = 0.):
    """A history of n steps drawn from the mix of operations; once a copy was made
    a step addresses it with the given probability."""
    maker = Maker(rng, cfg)
    steps = []
    readonly = False
    for k in range(n):
        op = first[k] if first and k < len(first) else pick(rng, mix)
        kwargs = dict((opts or {}).get(op, {}))
        if op not in ('copy', 'damage', 'validate', 'readonly', 'records'):
            kwargs['on'] = 'copy' if 'copy' in maker.sides and rng.random() < on_copy \
                else 'main'
            maker.vars = maker.sides[kwargs['on']]
        refused = readonly and kwargs.get('on') == 'main'
        kept = dict(maker.vars)
        steps.append(getattr(maker, op)(**kwargs))
        if refused:
            maker.vars.clear()
            maker.vars.update(kept)
        readonly = readonly or op == 'readonly'
    return {'cfg': cfg, 'steps': steps}
