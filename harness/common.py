"""Shared machinery of the checks: TLC runner, driver processes, evidence, reports.

Nothing here judges the code: cases and histories are executed by the drivers
(``harness/drv``) against /repo, recorded as JSON and judged by TLC with the
specifications of ``/verif/spec``.
"""
from __future__ import annotations

import hashlib
import json
import os
import pathlib
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('ZCV_REPO', '/repo'))
SPEC = VERIF / 'spec'
PYTHON = '/opt/venv/bin/python'
JAVA_CP = ('/opt/veriftools/tla/tla2tools.jar:'
           '/opt/veriftools/tla/CommunityModules-deps.jar')
NPROC = int(os.environ.get('ZCV_NPROC', '7'))


class HarnessError(RuntimeError):
    """The machinery itself failed: no answer (exit 2)."""


def ensure_build() -> None:
    """The package is imported from /repo's working tree; only the generated
    (git ignored) version file may be missing."""
    if not (REPO / 'zcollection' / 'version.py').exists():
        env = dict(os.environ,
                   SETUPTOOLS_SCM_PRETEND_VERSION='2024.2.0',
                   PYTHONDONTWRITEBYTECODE='1')
        subprocess.run(
            [PYTHON, '-m', 'setuptools_scm', '--force-write-version-files'],
            cwd=REPO, env=env, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL, check=False)
    if not (REPO / 'zcollection' / 'version.py').exists():
        (REPO / 'zcollection' / 'version.py').write_text(
            "__version__ = version = '2024.2.0'\n"
            "__version_tuple__ = version_tuple = (2024, 2, 0)\n"
            "def release():\n    return '2024.2.0'\n"
            "def date():\n    return '2024-02-01'\n")


class Ctx:
    """State of one run of a check."""

    def __init__(self, prop: str, tier: str, seed: int) -> None:
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.rng = random.Random(f'{prop}-{seed}')
        self.t0 = time.time()
        self.scratch = pathlib.Path(
            tempfile.mkdtemp(prefix=f'zcv-{prop}-', dir='/tmp'))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples: list = []
        self.notes: list[str] = []
        self.assumptions: list[str] = []
        self.violations: list[dict] = []
        self.known: list[str] = []
        self.nfile = 0

    @property
    def thorough(self) -> bool:
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        """Bound for the current tier."""
        return thorough if self.thorough else quick

    def elapsed(self) -> float:
        return time.time() - self.t0

    def path(self, name: str) -> pathlib.Path:
        self.nfile += 1
        return self.scratch / f'{self.nfile:03d}-{name}'

    # ------------------------------------------------------------------ TLC
    def tlc(self, module: str, *, env: dict | None = None, cfg: str | None = None,
            simulate: str | None = None, depth: int | None = None,
            timeout: float = 600, workers: int = 6, expect_ok: bool = True,
            consts: dict | None = None) -> dict:
        """Run TLC on spec/<module>.tla and return its counters and violations."""
        meta = self.path('tlc')
        meta.mkdir()
        for item in SPEC.glob('*.tla'):
            (meta / item.name).symlink_to(item)
        cfgpath = SPEC / (cfg or f'{module}.cfg')
        text = cfgpath.read_text()
        for name, value in (consts or {}).items():
            text, n = re.subn(rf'(?m)^(\s*{name}\s*=\s*).*$', rf'\g<1>{value}', text)
            if n != 1:
                raise HarnessError(f'constant {name} in {cfgpath}')
        (meta / f'{module}.cfg').write_text(text)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx6g', '-Xss64m', '-cp', JAVA_CP,
               'tlc2.TLC', '-config', f'{module}.cfg', '-metadir',
               str(meta / 'states'), '-workers', str(workers), '-deadlock',
               '-continue', '-noGenerateSpecTE']
        if simulate is not None:
            cmd += ['-simulate', simulate, '-seed', str(self.seed),
                    '-depth', str(depth or 10)]
        cmd.append(f'{module}.tla')
        out = meta / 'out.txt'
        with out.open('w') as stream:
            try:
                proc = subprocess.run(cmd, cwd=meta, stdout=stream,
                                      stderr=subprocess.STDOUT, timeout=timeout,
                                      env=dict(os.environ, **{
                                          k: str(v) for k, v in (env or {}).items()}),
                                      check=False)
            except subprocess.TimeoutExpired as exc:
                raise HarnessError(f'TLC timeout on {module}') from exc
        text = out.read_text(errors='replace')
        res = parse_tlc(text)
        res['rc'] = proc.returncode
        res['text'] = text
        if res['errors']:
            raise HarnessError(f'TLC failed on {module}:\n' + text[-3000:])
        if not res['finished'] and not res['violations']:
            raise HarnessError(f'TLC gave no result on {module}:\n' + text[-3000:])
        self.states += res['states']
        self.transitions += res['generated']
        if expect_ok and res['violations']:
            raise HarnessError(
                f'the specification {module} violates its own invariant:\n'
                + text[-3000:])
        return res

    def model(self, module: str, **kwargs) -> dict:
        """Stage 1: exhaustive check of the specification itself."""
        res = self.tlc(module, **kwargs)
        self.notes.append(
            f'model {module}: {res["states"]} distinct states, '
            f'{res["generated"]} generated, no violation')
        return res

    def refute(self, module: str, **kwargs) -> None:
        """A faulty variant of the design must violate the invariant of its model."""
        res = self.tlc(module, expect_ok=False, **kwargs)
        if not res['violations']:
            raise HarnessError(f'the model {module} accepts the faulty design {kwargs}')
        self.notes.append(f'model {module}: the faulty design {kwargs["consts"]} is rejected')

    def generate(self, module: str, **kwargs) -> list:
        """Stage 2: cases enumerated by TLC from the specification."""
        target = self.path(f'{module}.json')
        env = kwargs.pop('env', {})
        env['OUT'] = target
        self.tlc(module, env=env, **kwargs)
        if not target.exists():
            raise HarnessError(f'{module} generated nothing')
        text = target.read_text()
        if text.lstrip().startswith('['):
            try:
                return json.loads(text)
            except json.JSONDecodeError:
                pass
        return [json.loads(line) for line in text.splitlines() if line.strip()]

    # -------------------------------------------------------------- drivers
    def drive(self, driver: str, cases: list, *, nproc: int | None = None,
              timeout: float = 600, env: dict | None = None) -> list:
        """Execute the cases against the real code, in parallel processes."""
        nproc = max(1, min(nproc or NPROC, len(cases)))
        procs = []
        order = list(range(len(cases)))
        for k in range(nproc):
            idx = order[k::nproc]
            fin, fout = self.path(f'{driver}.in'), self.path(f'{driver}.out')
            with fin.open('w') as stream:
                for ix in idx:
                    stream.write(json.dumps([ix, cases[ix]]) + '\n')
            work = self.path(f'{driver}.work')
            work.mkdir()
            log = self.path(f'{driver}.log').open('w')
            penv = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TMPDIR=str(work),
                        PYTHONPATH=f'{REPO}:{VERIF / "harness"}',
                        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                        DASK_LOGGING__DISTRIBUTED='critical',
                        PYTHONWARNINGS='ignore',
                        ZCV_SEED=str(self.seed), ZCV_WORK=str(work),
                        HOME=str(work))
            penv.update({k: str(v) for k, v in (env or {}).items()})
            procs.append((subprocess.Popen(
                [PYTHON, str(VERIF / 'harness' / 'drv' / f'{driver}.py'),
                 str(fin), str(fout)],
                cwd=work, env=penv, stdout=log, stderr=subprocess.STDOUT,
                start_new_session=True), fout, idx, log))
        deadline = time.time() + timeout
        results: dict[int, dict] = {}
        failed = ''
        for proc, fout, idx, log in procs:
            try:
                proc.wait(max(1.0, deadline - time.time()))
            except subprocess.TimeoutExpired:
                failed = failed or f'{driver}: timeout'
            try:
                os.killpg(proc.pid, 9)
            except ProcessLookupError:
                pass
            proc.wait()
            log.close()
            if fout.exists():
                for line in fout.read_text().splitlines():
                    try:
                        ix, res = json.loads(line)
                        results[ix] = res
                    except (json.JSONDecodeError, ValueError):
                        pass
            if len([ix for ix in idx if ix in results]) != len(idx):
                tail = pathlib.Path(log.name).read_text(errors='replace')[-3000:]
                failed = failed or f'{driver}: rc={proc.returncode}\n{tail}'
        if len(results) != len(cases):
            raise HarnessError(
                f'driver gave {len(results)}/{len(cases)} results: {failed}')
        done = []
        for ix in order:
            res = results[ix]
            if isinstance(res, dict) and 'crash' in res:
                # the code under test raised where nothing may fail, or hung
                self.violations.append({
                    'module': driver, 'label': 'driver', 'case': res, 'index': ix,
                    'step': None, 'clauses': '{"no_result"}'})
            elif not (isinstance(res, dict) and 'skipped' in res):
                done.append(res)
        return done

    # --------------------------------------------------------------- judges
    def judge(self, module: str, cases: list, *, label: str = '',
              consts: dict | None = None, chunk: int = 4000,
              timeout: float = 600, samples: int = 2) -> list[dict]:
        """Stage 3: TLC compares the recorded executions with the
        specification.  Returns (and reports) the rejected ones."""
        rejected: list[dict] = []
        for base in range(0, len(cases), chunk):
            self._judge(module, cases[base:base + chunk], base, label, consts,
                        timeout, rejected)
        self.traces += len(cases)
        for item in cases[:samples]:
            text = json.dumps(item)
            self.samples.append(
                {'judge': module, 'label': label,
                 'case': item if len(text) < 1500 else text[:1500] + '...'})
        self.notes.append(f'{module} {label}: {len(cases)} recorded '
                          f'executions judged, {len(rejected)} rejected')
        self.violations += rejected
        return rejected

    def _judge(self, module, part, base, label, consts, timeout, rejected):
        if len([x for x in rejected if 'not_comparable' in x['clauses']]) >= 3:
            return
        target = self.path(f'{module}.ndjson')
        with target.open('w') as stream:
            for item in part:
                stream.write(json.dumps(tlc_value(item)) + '\n')
        try:
            res = self.tlc(module, env={'CASES': target}, expect_ok=False,
                           consts=consts, timeout=timeout)
            if res['violations']:
                # one worker: the traces are printed one after the other
                res = self.tlc(module, env={'CASES': target}, expect_ok=False,
                               consts=consts, timeout=timeout, workers=1)
        except HarnessError as exc:
            if 'TLC failed' not in str(exc) or 'semantic analysis failed' in str(exc):
                raise
            # A recorded value has another type than the specified one (TLC
            # refuses to compare them): look for the execution.
            if len(part) == 1:
                rejected.append({
                    'module': module, 'label': label, 'case': part[0], 'index': base,
                    'step': None, 'clauses': '{"not_comparable"}',
                    'detail': str(exc)[-1500:]})
                return
            half = len(part) // 2
            self._judge(module, part[:half], base, label, consts, timeout, rejected)
            self._judge(module, part[half:], base + half, label, consts, timeout,
                        rejected)
            return
        seen = set()
        for item in res['violations']:
            ix = item.get('i')
            if ix is None:
                raise HarnessError(f'cannot read the verdict of {module}:\n'
                                   + res['text'][-3000:])
            if ix in seen:
                continue
            seen.add(ix)
            rejected.append({
                'module': module, 'label': label, 'case': part[ix - 1],
                'index': base + ix - 1,
                'step': item.get('s'), 'clauses': item.get('bad', ''),
            })

    # -------------------------------------------------------------- results
    def finish(self) -> int:
        known = json.loads((VERIF / 'known_findings.json').read_text())
        entries = [e for e in known.get('findings', [])
                   if e['property'] == self.prop]
        remaining = []
        printed = set()
        for item in self.violations:
            entry = next((e for e in entries if matches(e, item)), None)
            if entry is None:
                remaining.append(item)
            else:
                printed.add(entry['id'])
        for entry in entries:
            # listed findings that no longer show are simply not printed
            if entry['id'] in printed or entry['id'] in self.known:
                print(f'KNOWN-FINDING: property={self.prop} {entry["what"]}')
        evidence = VERIF / 'evidence' / f'{self.prop}.json'
        evidence.parent.mkdir(exist_ok=True)
        data = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking',
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'samples': self.samples[:12],
                'notes': self.notes,
            },
            'assumptions': self.assumptions,
            'violations': len(remaining),
            'wall_s': round(self.elapsed(), 2),
        }
        evidence.write_text(json.dumps(data, indent=1) + '\n')
        for line in self.notes:
            print(line)
        if not remaining:
            print(f'OK property={self.prop} tier={self.tier} states={self.states} '
                  f'traces={self.traces} wall={self.elapsed():.1f}s')
            return 0
        replays = VERIF / 'replays'
        replays.mkdir(exist_ok=True)
        for item in remaining[:int(os.environ.get("ZCV_SHOW", 5))]:
            text = json.dumps(item, indent=1)
            name = hashlib.sha256(text.encode()).hexdigest()[:10]
            target = replays / f'{self.prop}-{name}.json'
            target.write_text(text)
            print(f'rejected by {item["module"]} {item["label"]} '
                  f'step={item["step"]} clauses={item["clauses"]}')
            print(f'VIOLATION property={self.prop} replay={target}')
        return 1

    def cleanup(self) -> None:
        if os.environ.get('ZCV_KEEP'):
            print('scratch kept:', self.scratch)
            return
        shutil.rmtree(self.scratch, ignore_errors=True)


def tlc_value(item):
    """JSON that TLC can read: no null, no floating point number, 32-bit integers."""
    if isinstance(item, dict):
        return {k: tlc_value(v) for k, v in item.items()}
    if isinstance(item, (list, tuple)):
        return [tlc_value(v) for v in item]
    if item is None or isinstance(item, float):
        return str(item)
    if isinstance(item, int) and not isinstance(item, bool) and abs(item) >= 2**31:
        return str(item)
    return item


def matches(entry: dict, item: dict) -> bool:
    """Whether the rejected execution is exactly the listed finding."""
    clauses = set(re.findall(r'"([^"]+)"', str(item['clauses'])))
    if not clauses or not clauses <= set(entry['clauses']):
        return False
    return all(lookup(item, key) == value
               for key, value in entry.get('where', {}).items())


def lookup(item, path: str):
    for part in path.split('.'):
        if isinstance(item, dict):
            item = item.get(part)
        elif isinstance(item, list) and part.isdigit() and int(part) < len(item):
            item = item[int(part)]
        else:
            return None
    return item


def parse_tlc(text: str) -> dict:
    """Read the counters and the violating states of a TLC run."""
    res = {'states': 0, 'generated': 0, 'violations': [], 'errors': [],
           'finished': False}
    for match in re.finditer(
            r'([\d,]+) states generated, ([\d,]+) distinct states found', text):
        res['generated'] = int(match.group(1).replace(',', ''))
        res['states'] = int(match.group(2).replace(',', ''))
    match = re.search(r'The number of states generated: ([\d,]+)', text)
    if match:
        res['generated'] = res['states'] = int(match.group(1).replace(',', ''))
    if ('Model checking completed' in text or 'Finished in' in text
            or 'The number of states generated' in text):
        res['finished'] = True
    text = re.sub(r'(?m)^Error: The behavior up to this point is:$', '', text)
    blocks = re.split(r'(?m)^Error: ', text)
    for block in blocks[1:]:
        if block.startswith('Invariant') and 'violated' in block.split('\n', 1)[0]:
            # last state of the block
            states = re.split(r'(?m)^State \d+:.*$', block)
            last = states[-1]
            item = {}
            for name in ('i', 's'):
                found = re.findall(rf'(?m)^/\\ {name} = (\d+)\s*$', last)
                if found:
                    item[name] = int(found[-1])
            found = re.search(r'(?ms)^/\\ bad = (\{.*?\})\s*(?=^/\\|^$|\Z)', last)
            if found:
                item['bad'] = ' '.join(found.group(1).split())
            item['raw'] = last[-600:]
            res['violations'].append(item)
        else:
            res['errors'].append(block[:2000])
    return res
