"""Interrupted insertions: generation, execution, judgement."""
import gen


def case(rng, mode, points):
    cfg = gen.config(rng, fs='file')
    cfg['base'] = rng.choice(['col', 'a=7/b=12', 'col'])
    maker = gen.Maker(rng, cfg)
    pre = [maker.insert(omit=.1) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
    keys = None
    if maker.keys and rng.random() < .75:
        # at least one partition is replaced
        pool = [list(k) for k in cfg['keys']]
        keys = sorted(rng.sample(pool, min(len(pool), rng.randint(1, 3))))
        old = list(rng.choice(maker.keys))
        if old not in keys:
            keys = sorted(keys + [old])
    step = maker.insert(omit=.1, keys=keys)
    step['npartitions'] = rng.choice([None, 1, 2])
    return {'cfg': cfg, 'pre': pre, 'step': step, 'mode': mode,
            'droppable': [n for n, v in cfg['vars'].items()
                          if n[0] == 'v' and not v['width']], 'points': points,
            'merges': 2 if step['merge']['kind'] != 'replace' else 0,
            'seed': rng.randint(0, 10**9), 'repair': .25}


def run(ctx, mode, count, points):
    cases = [case(ctx.rng, mode, points) for _ in range(count)]
    done = ctx.drive('zcrash', cases, timeout=840)
    runs = [r for rec in done for r in rec['runs']]
    ctx.judge('JudgeCrash', runs, label=mode)
    total = sum(rec['total'] for rec in done)
    ctx.notes.append(f'{mode}: {len(runs)} interruptions of {len(done)} insertions making '
                     f'{total} operations on the files')


def fail_case(rng, op, points):
    cfg = gen.config(rng, fs='file')
    cfg['base'] = 'col'
    maker = gen.Maker(rng, cfg)
    pre = [maker.insert(omit=.1) for _ in range(rng.choice([1, 1, 2]))]
    names = list(maker.vars)
    while True:
        step = getattr(maker, op)(bad=0)
        if op != 'dropvar' or step['name'] in names and step['name'] not in (
                ['stranger', 'time', *cfg['imm'], *cfg['part'].get('names', ())]):
            break
    if op == 'update':
        step['u'].update(depth=0, info=False, trim=True, chosen=[])
        step['npart'] = rng.choice([0, 1, 2])
    return {'cfg': cfg, 'pre': pre, 'step': step, 'points': points, 'names': names,
            'seed': rng.randint(0, 10**9)}


def fail(ctx, ops, count, points):
    """A failure of one operation on the files during an operation of the collection."""
    cases = [fail_case(ctx.rng, ctx.rng.choice(ops), points) for _ in range(count)]
    done = ctx.drive('zfail', cases, timeout=840)
    runs = [r for rec in done for r in rec['runs']]
    ctx.judge('JudgeFail', runs, label='failures')
    ctx.notes.append(f'{len(runs)} failures injected in {len(done)} operations making '
                     f'{sum(rec["total"] for rec in done)} operations on the files')
