"""fills the tables of DESIGN.md (between the markers)"""
import json, os, re, sys, glob, importlib
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
notes = json.load(open(os.path.join(H, 'tools', 'notes.json')))
sys.setrecursionlimit(10000)
T = []
for f in sorted(glob.glob(os.path.join(H, 'contracts', 'k_*.py'))):
    T += importlib.import_module('contracts.' + os.path.basename(f)[:-3]).TARGETS
by = {}
for t in T:
    for p in t.props:
        by.setdefault(p, []).append(t)
bounded = json.load(open(os.path.join(H, 'tools', 'bounded.json')))
out = ['| property | level | functions under contract (proved) | bounded stand-in, oracle |', '|---|---|---|---|']
for p in props:
    i = p['id']
    if i in ('C22',):
        continue
    fs = ', '.join('`%s`' % f for f in dict.fromkeys(f for t in by.get(i, []) for f in t.covers)) or '-'
    out.append('| **%s** %s | %s | %s | %s |' % (i, p['title'], notes.get(i, {}).get('level', 'exploration'), fs, bounded.get(i, '-')))
seeds = ['| change | property | needs | caught by |', '|---|---|---|---|']
catch = json.load(open(os.path.join(H, 'tools', 'catch.json')))
for s in sorted(glob.glob(os.path.join(H, 'seeded', '*'))):
    m = json.load(open(os.path.join(s, 'meta.json')))
    n = os.path.basename(s)
    seeds.append('| %s: %s | %s | %s | %s |' % (n, m['what_it_breaks'], m['property'], m['needs'], catch.get(n, '')))
f = os.path.join(H, 'DESIGN.md')
d = open(f).read()
def put(d, mark, lines):
    b = '<!-- %s -->\n%s\n<!-- end %s -->' % (mark, '\n'.join(lines), mark)
    d2 = re.sub(r'<!-- %s -->.*?<!-- end %s -->' % (mark, mark), lambda _: b, d, flags=re.S)
    return d2.replace('@@%s@@' % mark, b)
d = put(d, 'TABLE', out)
d = put(d, 'SEEDS', seeds)
open(f, 'w').write(d)
