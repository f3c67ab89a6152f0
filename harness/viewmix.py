"""Histories of a view and of its reference: generation, execution, judgement."""
import colmix
import gen

# once a partition of the view is not aligned with the reference any more, only
# these operations are meaningful until the view is synchronised
ALWAYS = ('insert', 'drop', 'vsync', 'vsynced', 'vlist', 'vreopen', 'vdrop')

# what becomes of the dates of a partition replaced by an insertion
HOWS = ('same', 'longer', 'head', 'tail', 'moved', 'both', 'before', 'between',
        'swapped')


class ViewMaker(gen.Maker):

    def __init__(self, rng, cfg):
        super().__init__(rng, cfg)
        self.ref = dict(cfg['vars'])
        self.vars = self.ref
        self.own: dict = {}
        self.seen: set = set()  # keys ever in the view
        self.held: dict = {}  # key -> times stored in the reference
        self.dirty = False
        self.nadded = 0
        self.how = None  # the change made to the partitions inserted again

    # ----------------------------------------------------------- reference
    def insert(self):
        rng, cfg = self.rng, self.cfg
        keys = sorted(rng.sample(cfg['keys'], min(rng.choice([1, 1, 2, 3]), len(cfg['keys']))))
        if not self.held:
            keys = sorted(rng.sample(cfg['keys'], min(len(cfg['keys']), rng.randint(2, 4)))
                          if len(cfg['keys']) < 10 else cfg['keys'])
        kind = rng.choice(['replace', 'replace', 'concat', 'keep'])
        again = rng.random() < .6 and kind == 'replace'
        if self.how:
            keys, kind, again = sorted(self.held), 'replace', True
            keys = [list(k) for k in rng.sample(keys, rng.randint(1, len(keys)))]
            keys.sort()
        rows = []
        for key in keys:
            old = self.held.get(tuple(key))
            if old and again:
                ts = list(old)
                how = self.how or rng.choice(['longer', *HOWS])
                if how in ('moved', 'both'):
                    ts[rng.randrange(len(ts))] += 1
                if how in ('longer', 'both'):
                    for _ in range(rng.randint(1, 3)):
                        ts += [ts[-1] + rng.randint(0, 2)]
                elif how == 'head' and len(ts) > 1:
                    ts = ts[:-1]
                elif how == 'tail' and len(ts) > 1:
                    ts = ts[1:]
                elif how == 'before':
                    ts = [ts[0]] + ts
                elif how == 'between':
                    ix = rng.randrange(len(ts))
                    ts = ts[:ix] + [ts[ix]] + ts[ix:]
                elif how == 'swapped' and len(ts) > 1:
                    ix, jx = rng.sample(range(len(ts)), 2)
                    ts[ix], ts[jx] = ts[jx], ts[ix]
            else:
                size = rng.randint(8, 30) if rng.random() < self.large * 4 else rng.randint(1, 4)
                ts = sorted(rng.sample(range(0, 14 if size < 8 else 90), size))
                if kind == 'concat' and old:
                    ts = [old[-1] + 1 + t for t in ts]
            rows += [(key, t) for t in ts]
            new = list(ts)
            if old and kind == 'keep':
                new = list(old)
            elif old and kind == 'concat':
                new = list(old) + new
            if tuple(key) in self.seen:
                self.dirty = True
            self.held[tuple(key)] = new
        self.vars = self.ref
        return {'op': 'insert', 'ds': self.ds(rows, omit=.1), 'on': 'main',
                'merge': {'kind': kind, 'tol': -1}, 'delayed': rng.random() < .3,
                'chunk': rng.choice([0, 0, 1]), 'npartitions': rng.choice([None, 1, 3])}

    def drop(self):
        step = super().drop()
        step['age'] = 'none'
        self.held = {k: v for k, v in self.held.items() if not sat(step['filter'], k)}
        return step

    # ---------------------------------------------------------------- view
    def vcreate(self):
        f, style = self.filter(.5)
        if f == ['none']:
            f, style = ['all'], 'absent'
        if style == 'func':
            style = 'text'
        self.seen = {k for k in self.held if sat(f, k)}
        return {'op': 'vcreate', 'filter': f, 'style': style}

    def vlist(self):
        f, style = self.filter(.3)
        return {'op': 'vlist', 'filter': f, 'style': style}

    def vadd(self, bad=.25):
        self.vars = {**self.ref, **self.own}
        rng, cfg = self.rng, self.cfg
        width, second = rng.choice(sorted({(s['width'], s['second'])
                                           for s in self.ref.values()}))
        spec = gen.spec_var(rng, width)
        spec['second'] = second
        dims = [cfg['dim'], spec['xdim']] if width else [cfg['dim']]
        if second:
            dims.reverse()
        self.nadded += 1
        var = {'name': f'n{self.nadded}', 'width': width, 'spec': spec, 'dims': dims,
               'hasdim': True, 'knowndims': True}
        if self.own and rng.random() < .1:
            pass
        if rng.random() < bad:
            how = rng.choice(['exists', 'own', 'nodim', 'unknown', 'imm'])
            if how == 'exists':
                var['name'] = rng.choice(list(self.ref))
            elif how == 'own' and self.own:
                var['name'] = rng.choice(list(self.own))
            elif how == 'imm' and cfg['imm']:
                var['name'] = 'lon'
            elif how == 'nodim':
                var['dims'] = ['other']
                var['hasdim'] = False
            else:
                var['dims'] = [cfg['dim'], 'other']
                var['knowndims'] = False
        else:
            self.own[var['name']] = spec
        return {'op': 'vadd', 'var': var}

    def vdrop(self, bad=.25):
        if not self.own or self.rng.random() < bad:
            return {'op': 'vdrop', 'name': self.rng.choice(['stranger', 'time', 'ident'])}
        name = self.rng.choice(list(self.own))
        del self.own[name]
        return {'op': 'vdrop', 'name': name}

    def pick_vars(self, p, need=()):
        rng = self.rng
        if rng.random() > p:
            return []
        names = list(self.ref) + list(self.own)
        sel = rng.sample(names, rng.randint(1, len(names)))
        if rng.random() < .3 and self.own and not need:
            sel = rng.sample(list(self.own), rng.randint(1, len(self.own)))
        return [sel + [n for n in need if n not in sel]]

    def vload(self):
        f, style = self.filter(.5)
        return {'op': 'vload', 'filter': f, 'style': style,
                'chosen': self.pick_vars(.4), 'delayed': self.rng.random() < .5}

    def vmap(self):
        step = super().map()
        step.pop('on')
        step.update(op='vmap', chosen=self.pick_vars(.35, ['ident', 'time']))
        return step

    def vupdate(self, bad=.08):
        rng = self.rng
        self.vars = {'time': 0, 'ident': 0, **self.own}
        step = super().update(bad=0.)
        step.pop('on')
        u = step['u']
        u['inferred'] = True
        u['chosen'] = []
        if not u['targets'] or rng.random() < bad:
            u['targets'] = [n for n in u['targets'] if n != 'stranger'] + [
                rng.choice(['stranger', 'ident'])]
        elif rng.random() < .3:
            sel = ['ident'] + [n for n in [*self.ref, *self.own]
                               if rng.random() < .5 and n != 'ident']
            if u['depth']:
                sel += [n for n in u['targets'] if n not in sel]
            u['chosen'] = [sel]
        step['op'] = 'vupdate'
        self.vars = self.ref
        return step

    def vsync(self):
        step = {'op': 'vsync'}
        if self.rng.random() < .15:
            step['filter'] = self.filter(.2)[0]
        self.dirty = False
        self.seen |= set(self.held)
        return step

    def vsynced(self):
        return {'op': 'vsynced'}

    def vreopen(self):
        return {'op': 'vreopen'}


def sat(f, key):
    op = f[0]
    if op == 'all':
        return True
    if op == 'none':
        return False
    if op == 'and':
        return sat(f[1], key) and sat(f[2], key)
    if op == 'or':
        return sat(f[1], key) or sat(f[2], key)
    if op == 'not':
        return not sat(f[1], key)
    v = key[f[1] - 1]
    return {'eq': lambda: v == f[2], 'ne': lambda: v != f[2], 'lt': lambda: v < f[2],
            'le': lambda: v <= f[2], 'gt': lambda: v > f[2], 'ge': lambda: v >= f[2],
            'mod': lambda: v % f[2] == f[3], 'in': lambda: v in f[2],
            'range': lambda: f[2] <= v < f[3]}[op]()


def run(ctx, mix, count, *, length=(5, 10), label='histories of a view', **cfg):
    rng = ctx.rng
    cases = []
    for _ in range(count):
        conf = gen.config(rng, **{'many': .07, **cfg})
        maker = ViewMaker(rng, conf)
        steps = [maker.insert(), maker.vcreate()]
        while len(steps) < rng.randint(*length) + 2:
            op = gen.pick(rng, mix)
            if len(steps) == 2 and rng.random() < .85:
                op = 'vadd'
            if maker.dirty and op not in ALWAYS:
                op = 'vsync'
            steps.append(getattr(maker, op)())
        cases.append({'cfg': conf, 'steps': steps})
    done = ctx.drive('zview', cases, timeout=840)
    ctx.judge('JudgeView', done, label=label)


def changed(ctx, count, **cfg):
    """Views holding values, whose reference has its partitions replaced in each
    of the ways."""
    rng = ctx.rng
    cases = []
    for nr in range(count):
        conf = gen.config(rng, **{'many': .05, **cfg})
        maker = ViewMaker(rng, conf)
        steps = [maker.insert(), {**maker.vcreate(), 'filter': ['all'], 'style': 'absent'},
                 maker.vadd(bad=0.)]
        maker.seen = set(maker.held)
        steps += [maker.vupdate(bad=0.) for _ in range(rng.randint(1, 2))]
        maker.how = HOWS[nr % len(HOWS)]
        for _ in range(rng.randint(1, 2)):
            steps += [maker.insert(), maker.vsynced(), maker.vsync(), maker.vsynced()]
            maker.how = rng.choice(HOWS)
        steps.append(maker.vload())
        cases.append({'cfg': conf, 'steps': steps})
    for _ in range(count // 4):
        # a partition leaves the reference, a variable is added to the view, and
        # the partition comes back
        conf = gen.config(rng, **cfg)
        maker = ViewMaker(rng, conf)
        steps = [maker.insert(), {**maker.vcreate(), 'filter': ['all'], 'style': 'absent'}]
        if rng.random() < .6:
            steps.append(maker.vadd(bad=0.))
        key = rng.choice(sorted(maker.held))
        times = maker.held[key]
        term = ['eq', 1, key[0]]
        for nr in range(1, len(key)):
            term = ['and', term, ['eq', nr + 1, key[nr]]]
        steps.append({**maker.drop(), 'filter': term, 'style': rng.choice(['text', 'func'])})
        steps.append(maker.vadd(bad=0.))
        maker.held = {key: times}
        maker.how = rng.choice(['same', 'same', 'longer', 'moved'])
        steps += [maker.insert(), maker.vsynced(), maker.vlist(), maker.vsync(),
                  maker.vsynced(), maker.vload()]
        cases.append({'cfg': conf, 'steps': steps})
    done = ctx.drive('zview', cases, timeout=840)
    ctx.judge('JudgeView', done, label='views whose reference changed')


def small(rng):
    cfg = colmix.small(rng)
    del cfg['vars']['v0']
    cfg['imm'] = {}
    return cfg


def complete(rng, cfg, step):
    step = dict(step)
    style = lambda f: rng.choice(['absent', 'text', 'func'] if f == ['all']
                                 else ['text', 'func'])
    if step['op'] in ('insert', 'drop'):
        return colmix.complete(rng, cfg, step)
    if 'filter' in step:
        step['style'] = style(step['filter'])
        if step['op'] == 'vcreate' and step['style'] == 'func':
            step['style'] = 'text'
    if step['op'] == 'vload':
        step['delayed'] = rng.random() < .5
    elif step['op'] == 'vmap':
        step.update(over=step['depth'] > 0 or rng.random() < .3, chosen=[], npart=0,
                    size=rng.choice([0, 1, 2]), delayed=rng.random() < .3,
                    info=step['depth'] > 0)
    elif step['op'] == 'vupdate':
        delayed = rng.random() < .4
        step.update(delayed=delayed,
                    npart=rng.choice([0, 2]) if delayed or not step['u']['depth'] else 1)
    elif step['op'] == 'vadd':
        width = step['var']['width']
        spec = colmix.var(rng.choice(['int64', 'float32']), width, fill=-1)
        step['var'] = dict(step['var'], spec=spec, dims=[cfg['dim'], 'x2'] if width
                           else [cfg['dim']])
    return step


def model(ctx, kinds, *, limit, depth=2, tail=()):
    """Checks the model of the view, then replays the behaviours TLC enumerates."""
    rng = ctx.rng
    ctx.model('MCView', consts=dict(Depth0=ctx.pick(4, 5)), timeout=800)
    names = '{' + ', '.join(f'"{k}"' for k in kinds) + '}'
    hists = ctx.generate('MCView', consts=dict(Kinds=names, Depth0=0, ReplayDepth=depth),
                         timeout=800)
    total = len(hists)
    if total > limit:
        hists = rng.sample(hists, limit)
    cases = []
    for hist in hists:
        cfg = small(rng)
        cases.append({'cfg': cfg, 'steps': [complete(rng, cfg, s)
                                            for s in list(hist) + list(tail)]})
    done = ctx.drive('zview', cases, timeout=840)
    ctx.judge('JudgeView', done,
              label=f'replayed behaviours of the view model ({len(hists)} of {total})')
