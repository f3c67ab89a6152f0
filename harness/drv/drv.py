"""Loop shared by the drivers: read cases, execute them, record the result."""
from __future__ import annotations

import faulthandler
import json
import logging
import os
import signal
import sys
import tempfile
import traceback
import warnings

warnings.simplefilter('ignore')
logging.getLogger('distributed').setLevel(logging.CRITICAL)
WORK = os.environ.get('ZCV_WORK') or tempfile.mkdtemp()
_CLIENT = None


class CaseTimeout(BaseException):
    pass


def client(workers=3):
    """In-process Dask client, started once."""
    global _CLIENT
    if _CLIENT is None:
        import dask
        import dask.distributed
        dask.config.set({'distributed.worker.daemon': False,
                         'distributed.comm.timeouts.connect': '60s'})
        _CLIENT = dask.distributed.Client(processes=False, n_workers=workers,
                                          threads_per_worker=2,
                                          dashboard_address=None)
    return _CLIENT


def main(execute, case_timeout: int = 120) -> None:
    def on_alarm(*_):
        raise CaseTimeout()

    faulthandler.enable()
    signal.signal(signal.SIGALRM, on_alarm)
    fin, fout = sys.argv[1:3]
    with open(fin) as stream, open(fout, 'w') as out:
        for line in stream:
            ix, case = json.loads(line)
            signal.alarm(case_timeout)
            hang = False
            try:
                res = execute(case)
            except CaseTimeout:
                hang = True
                res = {'crash': 'no result after %d s' % case_timeout, 'input': case}
            except Exception:
                res = {'crash': traceback.format_exc()[-2500:], 'input': case}
            finally:
                signal.alarm(0)
            out.write(json.dumps([ix, res]) + '\n')
            out.flush()
            if hang:
                # the threads of the stuck case would disturb the next ones
                for line in stream:
                    out.write(json.dumps([json.loads(line)[0], {'skipped': 1}]) + '\n')
                break
    os._exit(0)
