"""Makes one operation on the files fail while a collection is modified, and records
what is left and what the repetition gives."""
from __future__ import annotations

import copy as copylib
import errno
import json
import pathlib
import random
import shutil
import sys
import uuid

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import drv  # noqa: E402
import fsfault  # noqa: E402
import funcs  # noqa: E402
import zcrash  # noqa: E402
import zcollection.collection  # noqa: E402,F401
import dask.distributed  # noqa: E402,F401


def one(work, step):
    step = copylib.deepcopy(step)
    try:
        getattr(work, 'op_' + step['op'])(step)
        return {'res': step.get('res', 'ok')}
    except Exception as exc:
        return {'res': 'error', 'error': f'{type(exc).__name__}: {exc}'[:300]}


def others(case):
    """Variables that the operation must not touch."""
    step = case['step']
    gone = [step['name']] if step['op'] == 'dropvar' else (
        step['u']['targets'] if step['op'] == 'update' else [])
    return [v for v in case['names'] if v not in gone]


def attempted(case, path, run, root):
    fsfault.fast_sleep()
    drv.client(run['workers'])
    work = zcrash.Work(case, path)
    env = work.env
    env.zcol = env.open()
    trace = [] if run['mode'] == 'count' else None
    fsfault.arm(root, at=run['at'], mode=run['mode'], torn=run['torn'], trace=trace,
                code=run['errno'])
    first = one(work, case['step'])
    state = fsfault.disarm()
    out = {'first': first['res'], 'error': first.get('error', ''), 'trace': trace,
           'fired': bool(state.get('fired'))}
    if run['mode'] == 'count':
        return out
    out['declared'] = sorted(env.zcol.metadata.variables)
    try:
        with open(f'{path}/.zcollection') as stream:
            out['declared_disk'] = sorted(
                v['name'] for v in json.load(stream)['dataset']['variables'])
        env.open()
        out['reopened'] = True
    except Exception as exc:
        out['declared_disk'], out['reopened'] = [], False
        out['why'] = repr(exc)[:200]
        return out
    if run['reopen']:
        env.zcol = env.open()
    keys = [env.parse(x) for x in env.zcol.partitions()]
    parts, broken, imm = [], [], {}
    chosen = others(case) + list(case['cfg']['imm'])
    for key in keys:
        f = ['eq', 1, key[0]]
        for j in range(1, len(key)):
            f = ['and', f, ['eq', j + 1, key[j]]]
        try:
            zds = env.zcol.load(
                delayed=run['delayed'], filters=env.filter(f, 'text'),
                selected_variables=None if case['step']['op'] == 'addvar' else chosen)
            cols, imm = env.loaded(zds)
            parts.append([key, cols])
        except Exception as exc:
            broken.append(key)
            out['why'] = f'{type(exc).__name__}: {exc}'[:200]
    out.update(keys=keys, parts=parts, broken=broken, imm=imm)
    again = one(work, case['step'])
    out['again'], out['again_error'] = again['res'], again.get('error', '')
    try:
        out['final'] = env.observe()
        out['final_ok'] = True
    except Exception as exc:
        out['final'], out['final_ok'] = {}, False
        out['final_error'] = repr(exc)[:300]
    return out


def execute(case):
    rng = random.Random(case['seed'])
    code, base = fsfault.child(zcrash.prepare, case)
    if code or 'exc' in base:
        raise RuntimeError(f'preparation: {base}')
    rec = base['rec']
    for step in rec['steps']:
        for name in ('obs', 'obscopy', 'calls', 'results'):
            step.pop(name, None)
    root, path = pathlib.Path(base['root']), base['path']
    rel = pathlib.Path(path).relative_to(root)

    def attempt(run):
        copy = root.parent / uuid.uuid4().hex[:12]
        shutil.copytree(root, copy)
        try:
            code, res = fsfault.child(attempted, case, str(copy / rel), run, str(copy))
            if code:
                raise RuntimeError(f'run {run}: {code} {res}')
            return res
        finally:
            shutil.rmtree(copy, ignore_errors=True)

    def params(mode, at=0, torn=False):
        return {'mode': mode, 'at': at, 'torn': torn, 'workers': rng.choice([1, 1, 2]),
                'errno': rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES]),
                'delayed': rng.random() < .5, 'reopen': rng.random() < .4}

    try:
        trace = attempt(params('count'))['trace']
        ends = [k + 1 for k, ev in enumerate(trace)
                if ev[-1].endswith(('.zcollection', '.zmetadata')) or 'zcollection' in ev[-1]]
        points = rng.sample(ends, min(len(ends), case['points'] // 2))
        pool = list(range(1, len(trace) + 1))
        points += rng.sample(pool, min(len(pool), case['points'] - len(points)))
        runs = []
        for k in points:
            torn = rng.random() < .4 and case['step']['op'] != 'update'
            run = params('fail', k, torn)
            res = attempt(run)
            res.pop('trace', None)
            runs.append(dict(rec, step=case['step'],
                             run=dict(run, event=trace[k - 1], **res)))
        return {'runs': runs, 'total': len(trace)}
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    drv.main(execute, 400)
