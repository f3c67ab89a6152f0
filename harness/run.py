"""Entry point of the checks:  run.py <property> [quick|thorough]."""
from __future__ import annotations

import importlib
import os
import pathlib
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import common  # noqa: E402


def main() -> int:
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    common.ensure_build()
    ctx = common.Ctx(prop, tier, seed)
    try:
        importlib.import_module(f'props.{prop.lower()}').run(ctx)
        return ctx.finish()
    except common.HarnessError as exc:
        print(f'NO ANSWER property={prop}: {exc}')
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()


if __name__ == '__main__':
    sys.exit(main())
