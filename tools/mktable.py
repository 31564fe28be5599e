#!/usr/bin/env python3
"""Rewrites section 5.1 and 5.2 of DESIGN.md: what each check decided on the
unchanged tree (from evidence/) and the planted bugs (from seeded/).
usage: mktable.py   (after running the checks)"""
import glob, json, os, re
V = '/verif'
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
seeds = {}
for d in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds[os.path.basename(os.path.dirname(d))] = m
out = ['| property | obligations | constructs | seconds |', '|---|---|---|---|']
for p in props:
    f = f'{V}/evidence/{p["id"]}.json'
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    c = e.get('coverage', e)
    def get(*ks):
        for k in ks:
            for src in (c, e, c.get('counts', {}) if isinstance(c, dict) else {}):
                if isinstance(src, dict) and k in src:
                    return src[k]
        return ''
    n = get('obligations')
    n = n if not isinstance(n, (list, dict)) else len(n)
    fn = get('functions', 'functions_analysed')
    fn = fn if not isinstance(fn, (list, dict)) else len(fn)
    out.append(f'| {p["id"]} | {n} | {fn} | {float(get("wall_s") or 0):.0f} |')
t1 = '\n'.join(out)
out = ['| planted bug | needs | breaks |', '|---|---|---|']
for k, m in seeds.items():
    out.append(f'| {k} | {m["needs"]} | {m["what_it_breaks"]} |')
t2 = '\n'.join(out)
s = open(f'{V}/DESIGN.md').read()
for name, t in (('checks', t1), ('seeds', t2)):
    s = re.sub(f'(<!-- {name} -->\n).*?(<!-- end -->)', lambda m: m.group(1) + t + '\n' + m.group(2), s, flags=re.S)
open(f'{V}/DESIGN.md', 'w').write(s)
