"""Programs over datasets: generation, execution, judgement."""
import storemix

DTYPES = ['int64', 'int32', 'float64', 'float32', 'M8[ns]', 'm8[ns]', 'bool', 'uint8', 'uint16']
READS = ['values', 'values', 'data', 'getitem', 'dict', 'raw', 'dask', 'metadata', 'expr',
         'array', 'vpersist', 'dpersist']
REGS = ['A', 'B', 'C', 'D']
MUTATE = ['merge', 'rename', 'drop', 'add', 'persist', 'setvalues']
FRESH = ['isel', 'isel', 'delete', 'concat', 'concat', 'select', 'bydims', 'compute', 'rechunk',
         'pickle', 'same', 'xarray', 'make']


class Maker:

    def __init__(self, rng):
        self.rng = rng
        self.plain = rng.random() < .25          # no fill values: xarray comes and goes
        self.sizes = {d: rng.randint(1, 4) for d in 'xyz'}
        self.names = {}
        for name in 'abcdefgh':
            dims = rng.choice([['x'], ['x'], ['x'], ['x', 'y'], ['x', 'y'], ['y', 'x'], ['y'],
                               [], ['x', 'y', 'z'], ['z', 'x'], ['y', 'x', 'z']])
            dtype = rng.choice(DTYPES)
            pal = storemix.palette(rng, dtype)
            if dtype == 'm8[ns]' or dtype == 'M8[ns]':
                pal = ['0', '1', '86400', '1234567890', 'NaT']
            fill = rng.choice(pal) if rng.random() < .55 and not self.plain else None
            if self.plain and dtype[0] in 'mM':
                pal.remove('NaT')
            self.names[name] = {
                'dims': dims, 'dtype': dtype, 'pal': pal, 'fill': fill,
                'attrs': {f'k{k}': rng.choice(['u', 'w', 7]) for k in range(rng.randint(0, 2))},
                'codec': rng.choice([None, None, 'zlib1', 'lz4'])}
        self.delayed = rng.random() < .5
        # the names the registers probably hold
        self.held = {r: set() for r in REGS}

    def var(self, name, sizes, twist=0.):
        rng, like = self.rng, self.names[name]
        dims = list(like['dims'])
        if len(dims) > 1 and rng.random() < twist:
            rng.shuffle(dims)
        shape = [sizes[d] for d in dims]
        if shape and rng.random() < twist:
            shape[rng.randrange(len(shape))] += 1
        if rng.random() < twist / 2:
            shape = shape + [2] if rng.random() < .5 else shape[:-1]
        total = 1
        for x in shape:
            total *= x
        few = rng.sample(like['pal'], min(len(like['pal']), rng.randint(1, 4)))
        if like['fill'] is not None:
            few.append(like['fill'])
        return {'dims': dims, 'shape': shape, 'dtype': like['dtype'], 'fill': like['fill'],
                'attrs': like['attrs'], 'codec': like['codec'], 'masked': rng.random() < .4,
                'tokens': [rng.choice(few) for _ in range(total)]}

    def make(self, dst):
        rng = self.rng
        sizes = dict(self.sizes)
        for d in sizes:
            if rng.random() < (.5 if d == 'x' else .1):
                sizes[d] = rng.randint(0 if d == 'x' else 1, 4)
        names = rng.sample('abcd', rng.randint(1, 4)) if rng.random() < .7 else \
            rng.sample('abcdefgh', rng.randint(1, 3))
        self.held[dst] = set(names)
        twist = .12 if rng.random() < .3 else 0.
        return {'op': 'make', 'dst': dst, 'vars': {n: self.var(n, sizes, twist) for n in names},
                'attrs': {f'g{k}': rng.choice(['p', 'q', 3]) for k in range(rng.randint(0, 2))},
                'chunks': {d: rng.choice([2, 3, 100]) for d in 'xy' if rng.random() < .3},
                'block': rng.choice([None, 4096]),
                'mixed': len(names) > 1 and rng.random() < .04,
                'delayed': self.delayed != (rng.random() < .06), 'chunk': rng.choice([0, 1, 2])}

    def some(self, reg, names, count):
        """Names of variables, mostly some the register holds."""
        held = sorted(self.held[reg])
        if len(held) < count or self.rng.random() < .25:
            return self.rng.sample(names, count)
        return self.rng.sample(held, count)

    def index(self):
        rng = self.rng
        if rng.random() < .6:
            ends = [9999, 0, 1, 2, 3, 4, 7, -1, -2, -3, -6]
            if rng.random() < .2:
                # Dask does not clip the ends of such slices like Numpy
                return {'kind': 'slice', 'a': 9999, 'b': 9999, 'step': rng.choice([-1, -2])}
            return {'kind': 'slice', 'a': rng.choice(ends), 'b': rng.choice(ends),
                    'step': rng.choice([1, 1, 1, 2, 3])}
        return {'kind': 'list', 'idx': [rng.choice([0, 0, 1, 1, 2, -1, 3])
                                        for _ in range(rng.randint(1, 3))]}

    def step(self):
        rng = self.rng
        op = rng.choice(MUTATE + FRESH)
        src, dst = rng.choice(REGS), rng.choice(REGS)
        if op == 'make':
            return self.make(dst)
        if op not in MUTATE and op != 'select':
            self.held[dst] = self.held[src]
        st = {'op': op, 'src': src, 'dst': src if op in MUTATE else dst,
              'flag': rng.random() < .5, 'chunk': rng.choice([0, 1, 2, 3])}
        dim = rng.choice('xxxxyyz') if rng.random() < .97 else 'unknown'
        if op == 'isel':
            st['slices'] = {dim: self.index()}
            other = rng.choice('xyz')
            if rng.random() < .3 and other != dim:
                st['slices'][other] = {'kind': 'slice', 'a': rng.choice([0, 1, 9999]),
                                       'b': 9999, 'step': rng.choice([1, 2, -1])}
        elif op == 'delete':
            st['dim'], st['slices'] = dim, {dim: self.index()}
        elif op == 'concat':
            st['dim'] = dim
            st['others'] = [rng.choice(REGS) for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 2, 3]))]
        elif op == 'merge':
            st['others'] = [rng.choice(REGS)]
            self.held[src] = self.held[src] | self.held[st['others'][0]]
        elif op == 'rename':
            olds = self.some(src, 'abcdefgh', rng.choice([1, 2, 2, 3]))
            news = ['m', 'n', 'o', 'p', 'a', 'b', 'e', 'f']
            if rng.random() < .5:
                news = ['m', 'n', *olds]
            st['pairs'] = [[o, rng.choice(news)] for o in olds]
            self.held[src] = (self.held[src] - set(olds)) | {n for _, n in st['pairs']}
        elif op in ('drop', 'select'):
            st['names'] = self.some(src, 'abcdefghmn', rng.choice([0, 1, 1, 1, 2, 2, 3]))
            if op == 'drop':
                self.held[src] = self.held[src] - set(st['names'])
            else:
                self.held[dst] = set(st['names'])
        elif op == 'bydims':
            st['names'] = rng.sample(['x', 'y', 'z'], rng.choice([0, 1, 1, 2]))
            st['pred'] = rng.random() < .5
        elif op == 'add':
            st['name'] = rng.choice('abcdefgh')
            st['var'] = self.var(st['name'], self.sizes, .15)
            st['blank'] = rng.random() < .4
        elif op == 'setvalues':
            st['name'] = rng.choice('aaabbbccdefgh')
            st['seed'] = rng.randint(0, 10**6)
            st['pal'] = self.names[st['name']]['pal']
            st['extra'] = rng.random() < .06
        elif op == 'xarray':
            st['delayed'] = self.delayed
        return st


def case(rng):
    maker = Maker(rng)
    steps = [maker.make('A'), maker.make('B')]
    if rng.random() < .6:
        steps.append(maker.make('C'))
    steps += [maker.step() for _ in range(rng.randint(3, 8))]
    compress = any(st['op'] == 'persist' and st['flag'] for st in steps)
    for st in steps:
        for item in st.get('slices', {}).values():
            if compress and item.get('step', 1) < 0:
                item['step'] = 1        # not possible with compressed arrays
        st['how'] = {r: rng.choice(READS) for r in REGS}
    return {'steps': steps, 'scheduler': rng.choice(['synchronous', 'threads'])}


def run(ctx, count):
    done = ctx.drive('zdata', [case(ctx.rng) for _ in range(count)])
    ctx.judge('JudgeDataset', done, label='programs over datasets')
