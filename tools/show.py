"""Shows a replay file: configuration and the rejected step."""
import json, sys
d = json.load(open(sys.argv[1]))
c = d['case']
print(d['module'], d['label'], 'step', d['step'], d['clauses'])
if 'cfg' in c:
    print(json.dumps(c['cfg']))
if d.get('step') and 'steps' in c:
    for k, s in enumerate(c['steps'][:d['step']]):
        t = {a: b for a, b in s.items() if a not in ('obs', 'obscopy') or k == d['step'] - 1}
        print(k + 1, json.dumps(t)[:int(sys.argv[2]) if len(sys.argv) > 2 else 1500])
else:
    print(json.dumps(c)[:3000])
