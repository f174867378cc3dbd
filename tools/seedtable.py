"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/seed-results.txt
(the output of seedreplay.sh)."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
res, cur = {}, None
for l in open(os.path.join(here, 'seed-results.txt')):
    m = re.match(r'(c\d\d-\S+) \((C\d\d)\): exit (\d+) ?(?:C\d\d: (\S+) \((\w+) build, seed \d+, run (\d+)\))?', l)
    if m:
        cur = m[1]
        res[cur] = [m[3], m[4], m[6], []]
    elif cur:
        res[cur][3].append(l.strip().endswith('true'))
rows = ['| id | property | needs | reported as (run) | replay repeats |', '|---|---|---|---|---|']
root = os.path.join(here, '..', 'seeded')
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, 'meta.json')))
    r = res.get(d)
    if r is None: what, rep = 'not run', '-'
    elif r[0] == '1': what, rep = f'{r[1]} ({r[2]})', 'yes' if r[3] == [True, True] else 'NO'
    else: what, rep = f'**missed** (exit {r[0]})', '-'
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {what} | {rep} |")
p = os.path.join(here, '..', 'DESIGN.md')
s = open(p).read()
i = s.index('| id | property |')
j = s.index('\n\n', i)
open(p, 'w').write(s[:i] + '\n'.join(rows) + s[j:])
