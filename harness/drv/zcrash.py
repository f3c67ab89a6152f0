"""Interrupts an insertion (death of the process or failure of one operation on the
files) at chosen points and records what is left and what a repetition gives."""
from __future__ import annotations

import errno
import pathlib
import random
import shutil
import sys
import uuid

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import drv  # noqa: E402
import fsfault  # noqa: E402
import funcs  # noqa: E402
import zcol  # noqa: E402
import zcv  # noqa: E402
import zcollection.collection  # noqa: E402,F401  (imported before the forks)
import dask.distributed  # noqa: E402,F401


class Work(zcol.History):
    """A history that goes on from a copy of an existing collection."""

    def __init__(self, case, path=None):
        if path is None:
            super().__init__(case)
            return
        self.case = case
        self.env = zcv.Env(case['cfg'], path)
        self.copy = self.copypath = None
        self.damaged = []
        self.readonly = False


def prepare(case):
    drv.client(1)
    hist = Work(dict(case, steps=case['pre']))
    out = hist.run()
    return {'rec': out, 'root': str(hist.env.root), 'path': hist.env.path}


def failing(func, at):
    """A merge function failing on its n-th call."""
    calls = []

    def wrapped(existing_ds, inserted_ds, axis, partitioning_dim, **kwargs):
        calls.append(1)
        if len(calls) == at:
            raise funcs.Boom('merge')
        if func is None:
            return inserted_ds
        return func(existing_ds, inserted_ds, axis, partitioning_dim, **kwargs)
    return wrapped


def apply_step(work, step, fail_merge=0):
    env = work.env
    out = {'res': 'ok'}
    func, kwargs = zcv.merge_args(env, step['merge'])
    if fail_merge:
        func = failing(func, fail_merge)
    try:
        zds = env.dataset(step['ds'], step['delayed'], step['chunk'])
        list(env.zcol.insert(zds, merge_callable=func, npartitions=step['npartitions'],
                             **kwargs))
    except Exception as exc:
        out = {'res': 'error', 'error': f'{type(exc).__name__}: {exc}'[:300]}
    return out


def interrupted(case, path, run, root):
    """In a child: the insertion, with the fault; for a failure, what follows."""
    fsfault.fast_sleep()
    drv.client(run['workers'])
    work = Work(case, path)
    work.env.zcol = work.env.open()
    trace = [] if run['mode'] == 'count' else None
    fsfault.arm(root, at=run['at'], mode=run['mode'], torn=run['torn'], trace=trace,
                code=run['errno'])
    first = apply_step(work, case['step'], run['at'] if run['mode'] == 'merge' else 0)
    state = fsfault.disarm()
    out = {'first': first, 'n': state['n'], 'fired': bool(state.get('fired')),
           'trace': trace}
    if run['mode'] in ('fail', 'merge'):
        out['obs'] = observe(case, path, run, root, work)
    return out


def observe(case, path, run, root, work=None):
    fsfault.fast_sleep()
    drv.client(run['workers'])
    out = {'opened': False}
    if work is None or run['reopen']:
        work = Work(case, path)
        work.env.zcol = work.env.open()
    env = work.env
    out['opened'] = True
    keys = [env.parse(x) for x in env.zcol.partitions()]
    parts, broken = [], []
    out['imm'] = {}
    for key in keys:
        f = ['eq', 1, key[0]]
        for j in range(1, len(key)):
            f = ['and', f, ['eq', j + 1, key[j]]]
        try:
            zds = env.zcol.load(delayed=run['delayed'], filters=env.filter(f, 'text'))
            cols, imm = env.loaded(zds)
            parts.append([key, cols])
            out['imm'] = imm
        except Exception as exc:
            broken.append(key)
            out['why'] = f'{type(exc).__name__}: {exc}'[:200]
    out['keys'], out['parts'], out['broken'] = keys, parts, broken
    out['invalid'] = [env.parse(x) for x in env.zcol.validate_partitions()]
    # complete groups that are not partitions
    hidden = []
    for item in sorted(pathlib.Path(root).rglob('.zmetadata')):
        parts = item.parent.relative_to(root).parts
        if any(p.startswith('.') for p in parts) and parts[-1] != '.immutable':
            try:
                hidden.append(env.raw_columns(str(item.parent)))
            except Exception:
                pass
    out['hidden'] = hidden
    # A variable is dropped between the interruption and the repetition
    out['dropped'] = []
    step = case['step']
    if (run['after'] == 'repeat' and run['drop'] and not broken
            and all(k in keys for k in case['had'])):
        env.zcol.drop_variable(run['drop'])
        out['dropped'] = [run['drop']]
        step = dict(step, ds=dict(step['ds'], cols={
            k: v for k, v in step['ds']['cols'].items() if k != run['drop']}))
    if run['after'] == 'repair':
        try:
            work.env.zcol.validate_partitions(fix=True)
            out['again'] = {'res': 'ok'}
        except Exception as exc:
            out['again'] = {'res': 'error', 'error': repr(exc)[:300]}
    else:
        out['again'] = apply_step(work, step)
    final = {'ok': True, 'cols': {}, 'keys': [env.parse(x) for x in env.zcol.partitions()],
             'imm': {}, 'none': False, 'stored': []}
    try:
        zds = env.zcol.load(delayed=run['delayed'])
        if zds is None:
            final['none'] = True
        else:
            final['cols'], final['imm'] = env.loaded(zds)
        final['stored'] = env.disk()
    except Exception as exc:
        final.update(ok=False, error=repr(exc)[:300])
    out['final'] = final
    return out


def execute(case):
    rng = random.Random(case['seed'])
    code, base = fsfault.child(prepare, case)
    if code or 'exc' in base:
        raise RuntimeError(f'preparation: {base}')
    rec = base['rec']
    case['had'] = rec['steps'][-1]['obs']['keys'] if rec['steps'] else []
    root, path = pathlib.Path(base['root']), base['path']
    rel = pathlib.Path(path).relative_to(root)

    def attempt(run):
        copy = root.parent / uuid.uuid4().hex[:12]
        shutil.copytree(root, copy)
        try:
            target = str(copy / rel)
            code, res = fsfault.child(interrupted, case, target, run, str(copy))
            if code == 66:
                res = {'first': {'res': 'crashed'}}
                code, obs = fsfault.child(observe, case, target, run, str(copy))
                res['obs'] = obs
            elif code:
                raise RuntimeError(f'run {run}: {code} {res}')
            if code and 'exc' in res.get('obs', {}):
                res['obs'] = {'opened': False, 'exc': res['obs']['exc']}
            return res
        finally:
            shutil.rmtree(copy, ignore_errors=True)

    def params(mode, at=0, torn=False):
        return {'mode': mode, 'at': at, 'torn': torn, 'workers': rng.choice([1, 1, 2]),
                'errno': rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES]),
                'delayed': rng.random() < .5, 'reopen': rng.random() < .5,
                'drop': rng.choice(case['droppable'])
                if case['droppable'] and rng.random() < .3 else '',
                'after': 'repair' if rng.random() < case['repair'] else 'repeat'}

    try:
        ref = attempt(params('count'))
        trace = ref['trace']
        special = [k + 1 for k, ev in enumerate(trace)
                   if ev[0] in ('os.rename', 'os.rmdir', 'os.remove')
                   or ev[-1].endswith(('.zmetadata', '.zgroup'))]
        special += [k + 1 for k in special if k < len(trace)]
        points = []
        for k in rng.sample(special, min(len(special), case['points'] // 2 + 1)):
            points.append((k, rng.random() < .3))
        others = list(range(1, len(trace) + 1))
        for k in rng.sample(others, min(len(others), case['points'] - len(points))):
            points.append((k, rng.random() < .4))
        if case['mode'] == 'crash':
            # every renaming is a point of its own
            points += [(k + 1, False) for k, ev in enumerate(trace) if ev[0] == 'os.rename']
        runs = []
        for k, torn in dict.fromkeys(points):
            runs.append(params(case['mode'], k, torn))
        if case['mode'] == 'fail':
            runs += [params('merge', k) for k in range(1, 1 + case['merges'])]
        out = []
        for run in runs:
            res = attempt(run)
            if 'obs' not in res:
                continue  # ended before this point
            obs = res['obs']
            out.append(dict(run, first=res['first']['res'],
                            error=res['first'].get('error', ''),
                            opened=obs['opened'], obs=obs,
                            event=trace[min(run['at'], len(trace)) - 1]
                            if run['mode'] != 'merge' else []))
        for step in rec['steps']:
            for name in ('obs', 'obscopy', 'calls', 'results'):
                step.pop(name, None)
        rec['step'] = case['step']
        return {'runs': [dict(rec, run=x) for x in out], 'total': len(trace)}
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    drv.main(execute, 400)
