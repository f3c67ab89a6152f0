"""Computations on datasets and compressed arrays: generation, execution, judgement."""
HOWS = ['eager', 'delayed', 'persisted', 'compressed', 'computed', 'raw_compressed', 'box',
        'box', 'box_dask', 'box_mixed', 'pickled']
COMPARE = ['lt', 'le', 'eq', 'ne']


def tree(rng, names, depth):
    if depth == 0 or rng.random() < .15:
        if rng.random() < .12:
            return [rng.choice(['sum', 'min', 'max']), ['var', rng.choice(names)]]
        return ['var', rng.choice(names)]
    op = rng.choice(['neg', 'abs', 'square', 'add', 'add', 'sub', 'sub', 'mul', 'mod', 'div',
                     'maximum', 'minimum'])
    left = tree(rng, names, depth - 1)
    if op in ('neg', 'abs', 'square'):
        return [op, left]
    if op in ('mod', 'div'):
        return [op, left, ['const', rng.choice([1, 2, 3, 7])]]
    right = tree(rng, names, depth - 1) if rng.random() < .75 else \
        ['const', rng.choice([-2, 0, 1, 5])]
    return [op, left, right] if rng.random() < .5 or op in ('maximum', 'minimum') \
        else [op, right, left]


def single(tree):
    return tree[0] in ('const', 'sum', 'min', 'max') or tree[0] != 'var' and all(
        single(t) for t in tree[1:])


def inner(tree):
    """The variables reduced within the expression: Dask does not combine the
    missing value that results from missing values only."""
    return str([t[1:] for t in walk(tree) if t[0] in ('sum', 'min', 'max')])


def walk(tree):
    if isinstance(tree, list):
        yield tree
        for item in tree[1:]:
            yield from walk(item)


def top(rng, names):
    out = tree(rng, names, rng.choice([1, 1, 2, 3]))
    if single(out):
        out = ['add', ['var', names[0]], out]
    style = rng.random()
    if style < .2:
        return [rng.choice(COMPARE), out, rng.choice([['var', rng.choice(names)],
                                                      ['const', rng.choice([0, 2])]])]
    if style < .4:
        return [rng.choice(['sum', 'min', 'max']), out]
    return out


def small(tree):
    """The magnitudes stay within what TLC and every type hold."""
    return str(tree).count('square') + str(tree).count('mul') <= 2


def finish(rng, case, full=False):
    names = list(case['arrays'])
    for arr in case['arrays'].values():
        arr.setdefault('dtype', rng.choice(['int64', 'int32', 'float64', 'float32']))
        arr.setdefault('chunk', rng.choice([0, 0, 1, 2, 3]))
        arr.setdefault('box', rng.choice(['plain', 'plain', 'rechunk', 'copy', 'pickle', 'set',
                                          'zarr']))
    case['chunk'] = rng.choice([0, 1, 2, 3])
    case['number'] = rng.choice(['', '', 'int64', 'int32', 'float64', 'float32'])
    case['undefined'] = not full and rng.random() < .04
    if case['undefined']:
        case['tree'] = ['add', case['tree'], ['var', 'nowhere']]
    if 'astype' in str(case['tree']):
        case['how'] = ['box', 'box_dask']
        return case
    hows = [h for h in dict.fromkeys(HOWS) if not case['undefined'] or 'box' not in h and 'raw' not in h]
    case['how'] = hows if full else rng.sample(hows, min(len(hows), rng.randint(3, 5)))
    assert names
    return case


def case(rng):
    names = rng.sample(['a', 'b', 'c', 'sla', 'x_1'], rng.randint(1, 3))
    shape = rng.choice([[rng.randint(1, 9)], [rng.randint(1, 9)],
                        [rng.randint(1, 4), rng.randint(1, 3)]])
    size = shape[0] * (shape[1] if len(shape) > 1 else 1)
    arrays = {}
    for name in names:
        values = rng.choice([[0, 1, 2], [-3, 0, 3, 9], [5, 6, 7, 8]])
        fill = [rng.choice(values + [99])] if rng.random() < .7 else []
        raw = [rng.choice(values) for _ in range(size)]
        if rng.random() < .1 and fill:
            raw = [fill[0]] * size
        arrays[name] = {'raw': raw, 'fill': fill}
    while True:
        out = top(rng, names)
        if small(out) and not any(
                set(arr['raw']) == set(arr['fill']) and f"[['var', '{name}']]" in inner(out)
                for name, arr in arrays.items()):
            break
    return finish(rng, {'arrays': arrays, 'shape': shape, 'tree': out})


def replayed(rng, item):
    tree_, x, y, f, g = item
    kind = [rng.choice(['int64', 'float64', 'int32'])] * 2 if rng.random() < .5 else \
        ['int64', 'float32']
    return finish(rng, {'arrays': {'a': {'raw': x, 'fill': f, 'dtype': kind[0]},
                                   'b': {'raw': y, 'fill': g, 'dtype': kind[1]}},
                        'shape': [2], 'tree': tree_}, full=True)


QUARTER = ['sin', 'cos', 'tan', 'exp', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh',
           'arcsinh', 'arctanh', 'log', 'log10', 'log2', 'sqrt', 'arccosh']


def function(rng, op):
    """A function of the expressions applied to one or two arrays."""
    size = rng.randint(1, 9)
    x, y = ['var', 'a'], ['var', 'b']
    left, right = list(range(-6, 7)), [-3, -2, -1, 1, 2, 3]
    if op in QUARTER:
        left = [1, 2, 3]
    elif op == 'arctan2':
        left = right = [-2, -1, 1, 2]
    elif op == 'power':
        left, right = [-3, -1, 0, 2], [0, 1, 2, 3]
    elif op == 'prod':
        left = [-2, 1, 2, 3]
    tree_ = [op, x, y] if op in ('remainder', 'fmod', 'power', 'arctan2') else \
        ['add', x, [op]] if op in ('pi', 'e') else [op, x]
    arrays = {}
    for name, values in (('a', left), ('b', right)):
        fill = [] if rng.random() < .3 else [rng.choice(values)]
        arrays[name] = {'raw': [rng.choice(values) for _ in range(size)], 'fill': fill}
        if name == 'b' or op in QUARTER:
            # the fill value itself must be a valid argument
            arrays[name]['dtype'] = rng.choice(['int64', 'float64'])
    if op == 'astype':
        for arr in arrays.values():
            arr.update(dtype=rng.choice(['float32', 'float64']), scale=4)
        arrays['a']['fill'] = rng.choice([[], [0], [0], [-4], [arrays['a']['raw'][0]]])
        arrays['a']['raw'] += [-5, 0, 1, -1]
        arrays['b']['raw'] += [1] * 4
        size += 4
    if op == 'power':
        arrays['a']['dtype'] = 'int64'
        arrays['b']['dtype'] = 'int64'
    return finish(rng, {'arrays': arrays, 'shape': [size], 'tree': tree_}, full=True)


FUNCTIONS = QUARTER + ['ceil', 'floor', 'round', 'isfinite', 'isinf', 'isnan', 'prod', 'mean',
                       'variance', 'std', 'remainder', 'fmod', 'power',
                       'arctan2', 'pi', 'e', 'astype']


def run(ctx, count, replays):
    rng = ctx.rng
    items = ctx.generate('MCCompute', consts={'Values': '{0, 1, 3}', 'MaxLen': 1})
    chosen = rng.sample(items, min(replays, len(items)))
    done = ctx.drive('zcompute', [replayed(rng, x) for x in chosen], timeout=800)
    ctx.judge('JudgeCompute', done, label=f'expressions of the model ({len(chosen)} of {len(items)})')
    done = ctx.drive('zcompute', [case(rng) for _ in range(count)], timeout=800)
    ctx.judge('JudgeCompute', done, label='expressions')
    cases = [function(rng, op) for op in FUNCTIONS for _ in range(ctx.pick(4, 30) * (1 + 3 * (op == 'astype')))]
    ctx.judge('JudgeCompute', ctx.drive('zcompute', cases, timeout=800),
              label='functions of the expressions')
