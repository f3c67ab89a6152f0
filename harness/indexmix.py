"""Histories of an index: generation, execution, judgement."""
import gen
import viewmix


class IndexMaker(viewmix.ViewMaker):

    def __init__(self, rng, cfg):
        super().__init__(rng, cfg)
        self.stale = True

    def ds(self, rows, **kwargs):
        ds = super().ds(rows, **kwargs)
        rng = self.rng
        style = rng.choice(['any', 'runs', 'runs', 'zero', 'one'])
        col, g = [], rng.randint(0, 3)
        for _ in rows:
            if style == 'any' or (style == 'runs' and rng.random() < .4):
                g = rng.randint(0, 3)
            col.append(0 if style == 'zero' else g)
        ds['cols']['grp'] = col
        return ds

    def insert(self):
        self.stale = True
        return super().insert()

    def drop(self):
        self.stale = True
        return super().drop()

    def iupdate(self, full=None):
        f, style = self.filter(.55)
        if full:
            f, style = ['all'], 'absent'
        if f == ['all']:
            self.stale = False
        return {'op': 'iupdate', 'filter': f, 'style': style,
                'size': self.rng.choice([0, 0, 1, 2]), 'npart': self.rng.choice([0, 0, 1, 3]),
                'delayed': self.rng.random() < .5}

    def ireopen(self):
        return {'op': 'ireopen'}

    def q(self, keysonly=None):
        rng = self.rng
        n = len(self.cfg['keys'][0])
        names = rng.sample(['pas', 'pas', 'flag', 'start', 'stop']
                           + [str(j + 1) for j in range(n)], rng.choice([0, 1, 1, 2, 2, 3]))
        criteria = []
        for name in dict.fromkeys(names):
            if name == 'pas':
                vals = rng.sample(range(0, 4), rng.randint(1, 3))
            elif name == 'flag':
                vals = rng.sample([0, 1], rng.randint(1, 2))
            elif name in ('start', 'stop'):
                vals = rng.sample(range(0, 5), rng.randint(1, 4))
            else:
                pool = [k[int(name) - 1] for k in self.cfg['keys']]
                vals = [rng.choice(pool) for _ in range(rng.randint(1, 2))]
            criteria.append([name, vals, len(vals) == 1 and rng.random() < .6])
        return {'criteria': criteria, 'op': rng.choice(['and', 'and', 'or', 'xor', 'and_not']),
                'explicit': rng.random() < .3,
                'mask': [rng.randint(0, 2)] if rng.random() < .12 else [],
                'keysonly': rng.random() < .75 if keysonly is None else keysonly}

    def iquery(self):
        return {'op': 'iquery', 'q': self.q()}

    def iload(self, op='iload'):
        f, style = self.filter(.6)
        return {'op': op, 'q': self.q(True), 'filter': f, 'style': style,
                'chosen': self.pick_vars(.3) if op == 'viload' else (
                    [[n] for n in self.rng.sample(list(self.ref), 1)]
                    if self.rng.random() < .2 else []),
                'delayed': self.rng.random() < .5}

    def viload(self):
        return self.iload('viload')


def run(ctx, mix, count, *, length=(6, 11), label='histories of an index', views=.5):
    rng = ctx.rng
    cases = []
    for _ in range(count):
        conf = gen.config(rng, imm=.25, nvars=1, many=.07)
        conf['vars']['grp'] = {'dtype': rng.choice(['int64', 'int32', 'int8']), 'width': 0,
                               'second': False, 'fill': None, 'compressor': 'zlib'}
        maker = IndexMaker(rng, conf)
        steps = [maker.insert()]
        with_view = rng.random() < views
        if with_view:
            steps += [maker.vcreate(), maker.vadd(bad=0), maker.vupdate(bad=0)]
        steps.append(maker.iupdate(rng.random() < .7))
        for _ in range(rng.randint(*length)):
            op = gen.pick(rng, mix)
            if op == 'viload' and not with_view:
                op = 'iload'
            if maker.stale and op in ('iload', 'viload') and rng.random() < .8:
                steps.append(maker.iupdate(True))
            if maker.dirty and op == 'viload':
                steps.append(maker.vsync())
            steps.append(getattr(maker, op)())
        cases.append({'cfg': conf, 'kind': rng.choice(['runs', 'runs', 'rows', 'windows']),
                      'steps': steps})
    done = ctx.drive('zindex', cases, timeout=840)
    ctx.judge('JudgeIndexer', done, label=label)
