"""Counts the operations that modify the files below a directory and, at a chosen one,
kills the process or makes the operation fail."""
from __future__ import annotations

import errno
import json
import os
import select
import signal
import sys
import threading
import time
import traceback

EVENTS = {'os.rename': 2, 'os.remove': 1, 'os.mkdir': 1, 'os.rmdir': 1, 'os.truncate': 1,
          'os.link': 2, 'os.symlink': 2}
_LOCK = threading.RLock()
_STATE: dict = {}
_LOCAL = threading.local()


def _absolute(path, dir_fd=None):
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if isinstance(path, int) or not isinstance(path, (str, os.PathLike)):
        return None
    path = os.fspath(path)
    if not path.startswith('/'):
        if isinstance(dir_fd, int) and dir_fd >= 0:
            try:
                path = os.path.join(os.readlink(f'/proc/self/fd/{dir_fd}'), path)
            except OSError:
                return None
        else:
            path = os.path.join(os.getcwd(), path)
    return os.path.normpath(path)


def _hook(event, args):
    root = _STATE.get('root')
    if root is None or getattr(_LOCAL, 'busy', False):
        return
    if event == 'open':
        path, _, flags = args
        if not isinstance(flags, int) or not flags & (
                os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            return
        paths = [_absolute(path)]
    elif event in EVENTS:
        if event in ('os.rename', 'os.link'):
            paths = [_absolute(args[0], args[2]), _absolute(args[1], args[3])]
        elif event == 'os.mkdir':
            paths = [_absolute(args[0], args[2])]
        elif event == 'os.symlink':
            paths = [_absolute(args[1], args[2])]
        elif event == 'os.truncate':
            paths = [_absolute(args[0])]
        else:
            paths = [_absolute(args[0], args[1])]
    else:
        return
    if not any(p and (p == root or p.startswith(root + '/')) for p in paths):
        return
    listener = _STATE.get('listener')
    if listener is not None:
        _LOCAL.busy = True
        try:
            listener(event, [p[len(root):] if p else '' for p in paths])
        finally:
            _LOCAL.busy = False
    with _LOCK:
        if _STATE.get('fired'):
            return
        _STATE['n'] += 1
        if _STATE.get('trace') is not None:
            _STATE['trace'].append([event, *[p[len(root):] if p else '' for p in paths]])
        if _STATE['n'] != _STATE['at']:
            return
        _STATE['fired'] = True
        if _STATE['torn'] and event == 'open':
            _LOCAL.busy = True
            try:
                os.close(os.open(paths[0], os.O_WRONLY | os.O_CREAT | os.O_TRUNC))
            finally:
                _LOCAL.busy = False
        if _STATE['mode'] == 'crash':
            os._exit(66)
    raise OSError(_STATE.get('errno', errno.ENOSPC), 'injected fault')


_INSTALLED = False


def arm(root, *, at=0, mode='count', torn=False, trace=None, listener=None, code=errno.ENOSPC):
    global _INSTALLED
    _STATE.clear()
    _STATE.update(root=os.path.normpath(root), at=at, mode=mode, torn=torn, n=0, trace=trace,
                  listener=listener, errno=code)
    if not _INSTALLED:
        _INSTALLED = True
        sys.addaudithook(_hook)


def disarm():
    out = dict(_STATE)
    _STATE.clear()
    return out


def fast_sleep():
    """The library waits between its attempts to remove a directory."""
    real = time.sleep
    time.sleep = lambda x: real(min(x, .01) if x >= 1 else x)


def child(func, *args, timeout=100):
    """Run a function in a forked process; (exit code, result)."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        code = 0
        try:
            signal.alarm(0)
            res = func(*args)
        except BaseException:  # noqa
            res, code = {'exc': traceback.format_exc()[-2500:]}, 1
        with os.fdopen(wfd, 'w') as stream:
            json.dump(res, stream)
        os._exit(code)
    os.close(wfd)
    data, end = b'', time.time() + timeout
    while True:
        ready, _, _ = select.select([rfd], [], [], max(0, end - time.time()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            break
        part = os.read(rfd, 1 << 20)
        if not part:
            break
        data += part
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return -os.WTERMSIG(status), {'exc': 'killed: no result in time'}
    return os.WEXITSTATUS(status), json.loads(data) if data else None
