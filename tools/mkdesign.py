#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md (between <!-- begin X --> and <!-- end X -->) from the
evidence of the last quick runs, spec.py, properties.jsonl, known_findings.jsonl and seeded/.
Never run by a check."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import spec
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
def num(n): return f"{n:,}".replace(",", " ")
def scen():
    o = []
    for p in P:
        i = p['id']; c = spec.CHECKS[i]; e = json.load(open(f'{V}/evidence/{i}.json'))
        q = p['quantifier']; q = q if isinstance(q, str) else q.get('text', '')
        o += [f"### {i} {p['title']}", "", f"*Quantifier:* {q}.", f"*Decided by:* {c['technique']}. {c['note']}", f"*Tests cannot:* {p['why_tests_cant']}."]
        if c['assumptions']: o.append("*Assumed:* " + "; ".join(c['assumptions']) + ".")
        o += ["", "| scenario | what is enumerated (quick; thorough in parentheses) | executions | transitions | states |", "|---|---|--:|--:|--:|"]
        for part in e['coverage']['parts']:
            for s in part['scenarios']:
                o.append(f"| {s['name']} ({part['part'].replace('.c','')}) | {s['enumerates'].replace('|','&#124;')} | {num(s['executions'])} | {num(s['transitions'])} | {num(s['states'])} |")
        o.append("")
    return "\n".join(o)
def fixes():
    o = ["| property | commit | what failed |", "|---|---|---|"]; n = 0
    for l in open(V + '/known_findings.jsonl'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l.strip())
        if m: o.append("| %s | %s | %s |" % tuple(x.replace('|', '&#124;') for x in m.groups())); n += 1
    return f"{n} repairs:\n\n" + "\n".join(o)
def seeds():
    o = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
    R = {}
    for i in sorted(os.listdir(V + '/seeded')):
        m = json.load(open(f'{V}/seeded/{i}/meta.json')); o.append(f"| {i} | {m['property']} quick | {m['needs'].replace('|','&#124;')} | {m['what_it_breaks'].replace('|','&#124;')} |")
    return "\n".join(o)
t = open(V + '/DESIGN.md').read()
for k, f in (('scenarios', scen), ('fixes', fixes), ('seeds', seeds)):
    t, n = re.subn(rf'(<!-- begin {k} -->\n).*?(<!-- end {k} -->)', lambda m: m.group(1) + f() + "\n" + m.group(2), t, flags=re.S)
    if n != 1: sys.exit('no marker ' + k)
open(V + '/DESIGN.md', 'w').write(t)
