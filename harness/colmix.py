"""Histories of a collection: generation, execution, judgement."""
import gen


def run(ctx, mix, count, *, length=(4, 9), first=('insert', ), opts=None, imm=None,
        label='histories', on_copy=0., judge='JudgeCollection', many=.07, **cfg):
    """Random histories over all the configurations."""
    rng = ctx.rng
    cases = [gen.history(rng, gen.config(rng, imm=imm, many=many, **cfg), mix, rng.randint(*length),
                         list(first), opts or {}, on_copy)
             for _ in range(count)]
    done = ctx.drive('zcol', cases, timeout=840)
    ctx.judge(judge, done, label=label)


def var(dtype, width=0, fill=None, **kwargs):
    return {'dtype': dtype, 'width': width, 'second': False, 'fill': fill,
            'compressor': 'zlib', 'xdim': 'x2', **kwargs}


def small(rng):
    """The collection of MCCollection, with the choices the specification leaves open."""
    same = rng.random() < .4
    return {
        'axis': 'time', 'ident': 'ident', 'dim': 'time' if same else 'num',
        'unit': rng.choice(['ns', 'us', 'ms']), 't0': 0,
        'part': {'kind': 'seq', 'names': ['cycle'], 'dtypes': ['int32']},
        'keys': [[1], [2]],
        'vars': {'time': var('M8'), 'ident': var('int64'), 'cycle': var('int32'),
                 'v0': var(rng.choice(['int64', 'float32']), fill=-1),
                 'v1': var('float64', 2, fill=1e20)},
        'imm': {'lon': {'dtype': 'int64', 'dims': ['lon'], 'value': [1, 2, 3]}},
        'base': rng.choice(['col', 'cycle=7/col']),
        'fs': 'file' if rng.random() < .9 else 'memory',
    }


def complete(rng, cfg, step):
    """Options of an operation that must not change its result."""
    step = dict(step, on='main')
    style = lambda f: rng.choice(['absent', 'text', 'func'] if f == ['all']
                                 else ['text', 'func'])
    if 'filter' in step:
        step['style'] = style(step['filter'])
    op = step['op']
    if op == 'insert':
        step.update(delayed=rng.random() < .2, chunk=0, npartitions=rng.choice([None, 1, 3]))
    elif op == 'drop':
        step['age'] = 'none'
    elif op == 'load':
        step['delayed'] = rng.random() < .3
    elif op == 'map':
        step.update(over=step['depth'] > 0 or rng.random() < .3, chosen=[], npart=0,
                    size=rng.choice([0, 1, 2]), delayed=rng.random() < .3,
                    info=step['depth'] > 0)
    elif op == 'update':
        delayed = rng.random() < .3
        step.update(delayed=delayed,
                    npart=rng.choice([0, 2]) if delayed or not step['u']['depth'] else 1)
    elif op == 'addvar':
        spec = var('int64', fill=-1)
        step['var'] = dict(step['var'], spec=spec, dims=[cfg['dim']])
    elif op == 'readonly':
        step['how'] = rng.choice(['default', 'explicit'])
    elif op == 'copy':
        step.update(npart=0, fs=rng.random() < .5)
    return step


def model(ctx, kinds, *, limit, depth=2, first=None, deep=None, tail=(), after=None,
          judge='JudgeCollection', check='MCCollection'):
    """Checks the model, then replays the histories TLC enumerates on the real code."""
    rng = ctx.rng
    names = '{' + ', '.join(f'"{k}"' for k in kinds) + '}'
    ctx.model(check, consts=dict(
        Kinds='{"insert", "drop", "update", "addvar", "dropvar"}',
        Depth0=deep or ctx.pick(3, 4)), timeout=800)
    hists = ctx.generate('MCCollection', consts=dict(
        Kinds=names, Depth0=0, ReplayDepth=depth), timeout=800)
    if first:
        hists = [h for h in hists if h[0]['op'] in first]
    total = len(hists)
    if total > limit:
        hists = rng.sample(hists, limit)
    cases = []
    for hist in hists:
        cfg = small(rng)
        steps = list(hist) + list(tail)
        if after:
            steps[after[0]:after[0]] = after[1]
        cases.append({'cfg': cfg, 'steps': [complete(rng, cfg, s) for s in steps]})
    done = ctx.drive('zcol', cases, timeout=840)
    ctx.judge(judge, done,
              label=f'replayed histories of the model ({len(hists)} of {total})')
