"""Locking: generation, execution, judgement."""
import gen
import viewmix

MAIN = {'insert': 3, 'update': 2, 'drop': 1.5, 'addvar': 1.5, 'dropvar': 1, 'validate': 1,
        'damage': .5, 'updfail': 1, 'mergefail': 1, 'load': .5, 'list': .5, 'reopen': .4}
VIEW = {'insert': 2, 'vadd': 2, 'vupdate': 2, 'vdrop': 1, 'vsync': 2, 'drop': .7, 'vload': .5,
        'vreopen': .3, 'vsynced': .4}


def fault(rng, step, p):
    if rng.random() < p and step['op'] not in ('damage', 'load', 'list', 'vload', 'vsynced'):
        step['fault'] = {'at': rng.choice([1, 2, 3, 5, 8, 12, 20, 30, 45]),
                         'torn': rng.random() < .2}
    return step


def events(rng, p):
    cfg = gen.config(rng, fs='file')
    cfg['base'] = rng.choice(['col', 'col', 'a=7/b=12'])
    if rng.random() < .45:
        maker = viewmix.ViewMaker(rng, cfg)
        steps = [maker.insert(), fault(rng, maker.vcreate(), p / 3), maker.vadd(bad=0)]
        if rng.random() < .4:
            steps.append(maker.vreopen())
        mix = VIEW
    else:
        maker = gen.Maker(rng, cfg)
        steps = [maker.insert()]
        if rng.random() < .4:
            steps.append(maker.reopen())
        mix = MAIN
    for _ in range(rng.randint(3, 7)):
        op = gen.pick(rng, mix)
        if op == 'updfail':
            names = [n for n in maker.vars if n not in ('time', 'ident')
                     and n not in cfg['part'].get('names', ())] or ['ident']
            step = {'op': op, 'name': rng.choice(names), 'at': rng.randint(1, 3),
                    'npart': rng.choice([0, 1, 2])}
        elif op == 'mergefail':
            step = maker.insert(merge={'replace': 1})
            step.update(op=op, at=rng.randint(1, 3))
        else:
            step = getattr(maker, op)()
        steps.append(fault(rng, step, p))
    return {'kind': 'events', 'cfg': cfg, 'steps': steps, 'seed': rng.randint(0, 10**9),
            'slow': rng.choice([0, .3, .6])}


def processes(rng):
    while True:
        cfg = gen.config(rng, fs='file', imm=0, nvars=1)
        if cfg['part']['kind'] == 'seq':
            break
    cfg['base'] = 'col'
    cfg['keys'] = cfg['keys'][:3]
    maker = gen.Maker(rng, cfg)

    def ds():
        keys = sorted(rng.sample(cfg['keys'], rng.randint(1, len(cfg['keys']))))
        return maker.ds(maker.rows(keys, 2), omit=0)
    n = rng.randint(2, 3)
    return {'kind': 'processes', 'cfg': cfg, 'first': ds(),
            'jobs': [[ds() for _ in range(rng.randint(1, 3))] for _ in range(n)],
            'kill': [rng.randint(1, 60) if rng.random() < .12 else 0 for _ in range(n)],
            'npartitions': rng.choice([None, 1, 2]), 'query': rng.random() < .3}


def query(rng, n):
    script, holder, alive = [], None, ['p', 'q', 'r']
    for _ in range(n):
        acts = ['query', 'query'] + (['release', 'release', 'die'] if holder else ['acquire'] * 3)
        act = rng.choice(acts)
        if act == 'die' and len(alive) < 2:
            continue
        who = holder if act in ('release', 'die') else rng.choice(alive)
        script.append([act, who])
        if act == 'acquire':
            holder = who
        elif act == 'release':
            holder = None
        elif act == 'die':
            alive.remove(who)
            holder = None
    return {'kind': 'query', 'script': script}


def run(ctx, nevents, nproc, nquery):
    rng = ctx.rng
    cases = [events(rng, .4) for _ in range(nevents)]
    cases += [query(rng, rng.randint(4, 14)) for _ in range(nquery)]
    done = ctx.drive('zlock', cases, timeout=840)
    ctx.judge('JudgeLock', done, label='locks of one process')
    done = ctx.drive('zlock', [processes(rng) for _ in range(nproc)], timeout=840, nproc=3)
    ctx.judge('JudgeLock', done, label='concurrent processes')
