#!/usr/bin/env python3
# Rewrites section 4 of DESIGN.md from seeded/*/meta.json and known_findings.txt.
import json, os, re, collections
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = R + '/DESIGN.md'; s = open(p).read()
i = s.find('\n## 4.'); s = s[:i] if i >= 0 else s.rstrip('\n') + '\n'
o = ['', '## 4. Planted bugs and findings', '',
     'Every planted bug in `seeded/` compiles, passes the 17 stable tests and is caught by the quick check of its property (column 2);',
     'none of the checks reads that directory. They were written from the property texts; the ones about other processes, other box shapes, wide stencils',
     'and unusual lane counts prompted the corresponding cases in `specs.py`.',
     'Beyond these, `mut.py`-style sweeps (operators, constants, indices, conditions changed one at a time on the lines of the encoded functions) were run',
     'per file; survivors were either equivalent (log text, unreachable variants, values overwritten) or led to more cases (non-unit lambda, asymmetric spacing,',
     'processes other than the first, non-cubic boxes, unit weights removed).', '',
     '| seed | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(f'{R}/seeded/{d}/meta.json')); o.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
k = [l.strip() for l in open(R + '/known_findings.txt') if l.strip() and not l.startswith('#')]
o += ['', 'Genuine defects found by the checks and repaired in /repo (`fix:` commits; each check reports its defect again if the repair is undone):', '']
by = collections.OrderedDict()
for l in k:
    g = re.match(r'fixed: property=(C\d+) (\S+) (.*)', l)
    if g: by.setdefault(g[1], []).append(f'{g[3]} ({g[2][:7]})')
for c in sorted(by): o.append(f'* **{c}**: ' + '; '.join(by[c]) + '.')
o += ['', 'Recorded, not repaired (the checks print them as KNOWN-FINDING and stay quiet; they identify harness, assertion and case):', '']
seen = set()
for l in k:
    g = re.match(r'KNOWN-FINDING: property=(C\d+) harness=(\S+) label=(\S+) case=(\S+) (.*)', l)
    if g and (g[1], g[5]) not in seen: seen.add((g[1], g[5])); o.append(f'* {g[1]} ({g[2]}, {g[4]}): {g[5]}.')
open(p, 'w').write(s.rstrip('\n') + '\n' + '\n'.join(o) + '\n')
