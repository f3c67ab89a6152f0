"""Setup: checks that the tools are there and parses every specification."""
import pathlib
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import common  # noqa: E402

common.ensure_build()
(common.VERIF / 'evidence').mkdir(exist_ok=True)
(common.VERIF / 'replays').mkdir(exist_ok=True)
bad = 0
for item in sorted(common.SPEC.glob('*.tla')):
    res = subprocess.run(['java', '-cp', common.JAVA_CP, 'tla2sany.SANY', item.name],
                         cwd=common.SPEC, capture_output=True, text=True)
    if res.returncode:
        bad += 1
        print(item.name, res.stdout[-1500:])
print('specifications parsed,', bad, 'in error')
sys.exit(1 if bad else 0)
