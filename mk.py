#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks.json and this file's texts."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
checks = json.load(open(os.path.join(here, 'checks.json')))
TECH = ("symbolic execution of the Go SSA of /repo's current source with symbolic inputs; "
        "assertions decided by z3 over all values within the bounds; counterexamples replayed on the compiled code")
NA = {}
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks encode and build /repo as it is", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    c = checks.get(i)
    if not c:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    note = "Holds for every value within: " + (c.get("bounds") or "the bounds in checks.json") + "."
    if c.get("assumptions"):
        note += " Assumes / leaves out: " + "; ".join(c["assumptions"]) + "."
    note += " Trusts the SSA translation, the executor's models of the standard library, and z3."
    m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                        "technique": TECH, "level": "model_checking", "level_note": note})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')


def design():
    """Fills the generated parts of DESIGN.md."""
    import glob, re
    doc = {}
    for f in sorted(glob.glob(os.path.join(here, 'harness/h*/*.go'))):
        com = []
        for l in open(f):
            if l.startswith('//'):
                com.append(l[2:].strip())
                continue
            g = re.match(r'func ([A-Z]\d\d)_(\w+)\(\)', l)
            if g:
                t = ' '.join(com)
                t = re.sub(r'^[A-Z]\d\d_\w+: ', '', t)
                doc.setdefault(g.group(1), []).append((g.group(2), t))
            com = []
    out = []
    for p in props:
        i = p['id']
        c = checks.get(i)
        if not c:
            continue
        out.append(f"**{i} {p['title']}** (harness/{c['pkg']})\n")
        for n, t in doc.get(i, []):
            out.append(f"- `{i}_{n}`: {t}")
        out.append(f"- bounds: {c.get('bounds', '')}.")
        if c.get('assumptions'):
            out.append("- leaves out: " + '; '.join(c['assumptions']) + '.')
        if c.get('cost'):
            out.append(f"- cost: {c['cost']}.")
        out.append('')
    k = json.load(open(os.path.join(here, 'known-findings.json')))
    find = [f"- `{f['id']}` ({f['property']}): {f['what']}" for f in k['findings']]
    find.append(f"\n{len(set(x.split()[2] for x in k['fixed']))} defects were repaired.")
    seeds = ["| change | property | caught by | needs |", "|---|---|---|---|"]
    caught = {}
    try:
        caught = json.load(open(os.path.join(here, 'caught.json')))
    except OSError:
        pass
    for d in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
        m_ = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        seeds.append(f"| {n} | {m_['property']} | {caught.get(n, '?')} | {m_['needs']} |")
    d = os.path.join(here, 'DESIGN.md')
    s = open(d).read()
    for tag, lines in (('properties', out), ('findings', find), ('seeds', seeds)):
        a, b = f'<!-- {tag} -->', f'<!-- /{tag} -->'
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + '\n' + '\n'.join(lines) + '\n' + s[j:]
    open(d, 'w').write(s)


if os.path.exists(os.path.join(here, 'seeded')):
    design()
