"""Rewrites the tables of DESIGN.md (between the marker comments) from properties.jsonl, MANIFEST.json, the evidence of the last runs and seeded/"""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
C = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
t = ['| Property | Deciding method | What a quick run observed here | Why tests cannot, and the limits |', '|---|---|---|---|']
for p in P:
    c = C[p['id']]
    try:
        e = json.load(open(f'{V}/evidence/{p["id"]}.json'))
        ob = f'{e["coverage"]["evaluations"]:,} evaluations, {e["coverage"]["distinct_nontrivial"]:,} distinct, {e["wall_s"]:.0f} s'
    except OSError:
        ob = ''
    t.append(f'| **{p["id"]}** {p["title"]} | {c["technique"]} | {ob} | {p["why_tests_cant"]} {c.get("level_note", "")} |')
s = ['| Seed | Property (and check that catches it) | Needs | Breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    s.append(f'| {d} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} |')
x = open(V + '/DESIGN.md').read()
for n, r in (('table', t), ('seeds', s)):
    x = re.sub(f'(<!-- {n} -->\n).*?(<!-- /{n} -->)', lambda m: m[1] + '\n'.join(r) + '\n' + m[2], x, flags=re.S)
open(V + '/DESIGN.md', 'w').write(x)
