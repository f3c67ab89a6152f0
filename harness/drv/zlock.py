"""Records what the synchronizers protect: modifications of the files with respect to
the locks, concurrent processes, answers of is_locked."""
from __future__ import annotations

import errno
import json
import multiprocessing
import os
import pathlib
import random
import sys
import threading
import time
import uuid

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import drv  # noqa: E402
import fsfault  # noqa: E402
import funcs  # noqa: E402
import zcv  # noqa: E402
import zview  # noqa: E402
import zcollection  # noqa: E402
from zcollection import sync, view  # noqa: E402

REGISTRY: dict = {}


def lookup(name):
    return REGISTRY[name]


class Recorder(sync.Sync):
    """Not reentrant, like the synchronizers of the library."""

    def __init__(self, which, log):
        self.name = uuid.uuid4().hex
        self.which, self.log = which, log
        self.lock = threading.Lock()
        REGISTRY[self.name] = self

    def __enter__(self):
        if not self.lock.acquire(timeout=20):
            self.log.append(['stuck', self.which])
            raise RuntimeError('the lock is held for ever')
        self.log.append(['A', self.which])
        return True

    def __exit__(self, *_):
        self.log.append(['R', self.which])
        if self.lock.locked():
            self.lock.release()

    def is_locked(self):
        return self.lock.locked()

    def __reduce__(self):
        return lookup, (self.name, )


class LockHistory(zview.ViewHistory):

    def __init__(self, case):
        self.log: list = []
        self.locks = {'main': Recorder('main', self.log), 'view': Recorder('view', self.log)}
        self.unlocked = 0
        self.rng = random.Random(case['seed'])
        self.ended = False
        self.late = 0
        real = zcv.Env.create
        zcv.Env.create = lambda env, synchronizer=None: real(env, self.locks['main'])
        try:
            super().__init__(case)
        finally:
            zcv.Env.create = real
        self.rel = self.env.path[len(str(self.env.root)):]
        self.vrel = self.vpath[len(str(self.env.root)):]

    def op_vcreate(self, step):
        self.view = zcollection.create_view(
            self.vpath, view.ViewReference(self.env.path, self.env.fs),
            filesystem=self.env.fs, synchronizer=self.locks['view'],
            filters=self.env.filter(step['filter'], step['style']))

    def op_vreopen(self, step):
        self.view = zcollection.open_view(
            self.vpath, filesystem=self.env.fs, synchronizer=self.locks['view'])

    def op_reopen(self, step):
        self.env.zcol = self.env.open(synchronizer=self.locks['main'])

    def owner(self, path):
        """The lock protecting a file: the declarations are not protected."""
        for which, rel in (('view', self.vrel), ('main', self.rel)):
            if path.startswith(rel + '/'):
                name = path[len(rel) + 1:]
                if '/' not in name and name.startswith(('.zcollection', '.view')):
                    return None
                return which
        # temporary directories may lie next to a collection named key=value
        if path.split('/')[1:2] and path.split('/')[1].startswith('.'):
            return 'main'
        return None

    def listener(self, event, paths):
        for path in paths:
            which = self.owner(path)
            if which is None:
                continue
            if self.ended:
                self.late += 1
            item = ['W', which]
            if not self.log or self.log[-1] != item:
                self.log.append(item)
            zcol = self.env.zcol if which == 'main' else self.view
            if which == 'main' and zcol is not None and not zcol.is_locked():
                self.unlocked += 1
        if self.rng.random() < self.case['slow']:
            time.sleep(self.rng.random() * .008)

    def run(self):
        ops = []
        for step in self.case['steps']:
            if step['op'].startswith('v') and self.view is None and step['op'] not in (
                    'vcreate', 'validate'):
                continue
            self.log.clear()
            self.ended, self.late, self.unlocked = False, 0, 0
            fault = step.get('fault') or {'at': 0, 'torn': False}
            if step['op'] == 'damage':  # not an action of the library
                self.op_damage(dict(step))
                continue
            fsfault.arm(str(self.env.root), at=fault['at'],
                        mode='fail' if fault['at'] else 'count', torn=fault['torn'],
                        listener=self.listener, code=errno.ENOSPC)
            res, error = 'ok', ''
            try:
                getattr(self, 'op_' + step['op'])(dict(step))
            except Exception as exc:
                res, error = 'error', f'{type(exc).__name__}: {exc}'[:200]
            self.ended = True
            events = list(self.log)
            if res == 'error':
                time.sleep(.03)
            fsfault.disarm()
            ops.append({'op': step['op'], 'res': res, 'error': error, 'events': events,
                        'late': self.late, 'unlocked_writes': self.unlocked,
                        'fault': fault, 'locked_after': any(
                            x.is_locked() for x in self.locks.values())})
            for item in self.locks.values():  # do not disturb the next operation
                if item.lock.locked():
                    item.lock.release()
        return {'kind': 'events', 'ops': ops, 'cfg': self.case['cfg']}

    def op_updfail(self, step):
        """An update whose function fails on one of the partitions."""
        calls = []

        def func(zds, *args, **kwargs):
            calls.append(1)
            if len(calls) == step['at']:
                raise funcs.Boom('update')
            time.sleep(.003)
            return {step['name']: zds[step['name']].values}
        self.env.zcol.update(func, variables=[step['name']],
                             npartitions=step['npart'] or None)

    def op_mergefail(self, step):
        calls = []

        def func(existing_ds, inserted_ds, axis, partitioning_dim, **kwargs):
            calls.append(1)
            if len(calls) == step['at']:
                raise funcs.Boom('merge')
            time.sleep(.003)
            return inserted_ds
        list(self.env.zcol.insert(self.env.dataset(step['ds'], False, 0),
                                  merge_callable=func, npartitions=step['npartitions']))


# ------------------------------------------------------------------ processes
def writer(case, path, lockpath, jobs, barrier, out, kill):
    fsfault.fast_sleep()
    drv.client(1)
    env = zcv.Env(case['cfg'], path)
    env.zcol = env.open(synchronizer=sync.ProcessSync(lockpath))
    outcome = []
    barrier.wait(60)
    for n, ds in enumerate(jobs):
        if kill and n == len(jobs) - 1:
            # die in the middle of the last insertion
            pathlib.Path(out).write_text(json.dumps(outcome + ['killed']))
            fsfault.arm(path, at=kill, mode='crash')
        try:
            list(env.zcol.insert(env.dataset(ds, False, 0), merge_callable=funcs.merge_concat,
                                 npartitions=case['npartitions']))
            outcome.append('ok')
        except Exception as exc:
            outcome.append(f'{type(exc).__name__}: {exc}'[:200])
        if case['query']:
            env.zcol.is_locked()
    fsfault.disarm()
    pathlib.Path(out).write_text(json.dumps(outcome))


def idents(env):
    out = []
    for key, cols in env.disk():
        out.append([key, cols['ident']])
    return out


def fork(func, *args):
    pid = os.fork()
    if pid == 0:
        try:
            func(*args)
        finally:
            os._exit(0)
    return pid


def processes(case):
    fsfault.fast_sleep()
    env = zcv.Env(case['cfg'])
    lockpath = str(env.root / 'the.lock')

    def first():
        drv.client(1)
        env.create()
        list(env.zcol.insert(env.dataset(case['first'], False, 0)))
        return idents(env)
    code, initial = fsfault.child(first)
    if code:
        raise RuntimeError(str(initial))
    barrier = multiprocessing.Barrier(len(case['jobs']))
    pids, outs = [], []
    for jobs, kill in zip(case['jobs'], case['kill']):
        outs.append(env.root / f'{len(outs)}.json')
        pids.append(fork(writer, case, env.path, lockpath, jobs, barrier, outs[-1], kill))
    for pid in pids:
        os.waitpid(pid, 0)

    def last():
        drv.client(1)
        zcol = env.open(synchronizer=sync.ProcessSync(lockpath))
        bad = [env.parse(x) for x in zcol.validate_partitions(fix=True)]
        return {'final': idents(env), 'locked': zcol.is_locked(), 'bad': bad}
    code, res = fsfault.child(last)
    if code:
        raise RuntimeError(str(res))
    writers, outcome = [], []
    for jobs, out in zip(case['jobs'], outs):
        done = json.loads(out.read_text()) if out.exists() else []
        for n, ds in enumerate(jobs):
            blocks: dict = {}
            for key, ident in zip(ds['keys'], ds['cols']['ident']):
                blocks.setdefault(tuple(key), []).append(ident)
            writers.append([[list(k), v] for k, v in blocks.items()])
            outcome.append(done[n] if n < len(done) else 'lost')
    env.cleanup()
    return {'kind': 'processes', 'keys': case['cfg']['keys'], 'initial': initial,
            'final': res['final'], 'locked': res['locked'], 'invalid': res['bad'],
            'writers': writers, 'outcome': outcome, 'cfg': case['cfg']}


# -------------------------------------------------------------------- queries
def server(path, conn):
    obj = sync.ProcessSync(path)
    while True:
        act = conn.recv()
        if act == 'die':
            os._exit(9)
        if act == 'acquire':
            obj.__enter__()
        elif act == 'release':
            obj.__exit__(None, None, None)
        elif act == 'end':
            os._exit(0)
        conn.send(bool(obj.is_locked()) if act == 'query' else None)


def query(case):
    path = os.path.join(drv.WORK, uuid.uuid4().hex)
    conns, pids = {}, []
    for name in 'pqr':
        ours, theirs = multiprocessing.Pipe()
        pids.append(fork(server, path, theirs))
        theirs.close()
        conns[name] = ours
    answers = []
    for act, name in case['script']:
        conns[name].send(act)
        if act == 'die':
            os.waitpid(pids['pqr'.index(name)], 0)
            continue
        if not conns[name].poll(30):
            raise RuntimeError('no answer')
        res = conns[name].recv()
        if act == 'query':
            answers.append(res)
    for name, conn in conns.items():
        if ['die', name] not in case['script']:
            conn.send('end')
            os.waitpid(pids['pqr'.index(name)], 0)
    return {'kind': 'query', 'script': case['script'], 'answers': answers}


def execute(case):
    if case['kind'] == 'query':
        return query(case)
    if case['kind'] == 'processes':
        return processes(case)

    def events():
        fsfault.fast_sleep()
        drv.client(2)
        hist = LockHistory(case)
        try:
            return hist.run()
        finally:
            hist.env.cleanup()
    code, res = fsfault.child(events)
    if code:
        raise RuntimeError(str(res))
    return res


if __name__ == '__main__':
    drv.main(execute)
