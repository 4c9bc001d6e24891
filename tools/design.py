#!/usr/bin/env python3
"""Assembles DESIGN.md: tools/design_head.md, tools/design_notes.json (per property), the harnesses of props/, the known findings and
the planted bugs.  python3 tools/design.py"""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(tree):
    d = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant):
            d[n.targets[0].id] = n.value.value
    return d


def text(e, env):
    if isinstance(e, ast.Constant):
        return str(e.value)
    if isinstance(e, ast.Name):
        return str(env.get(e.id, e.id))
    if isinstance(e, ast.BinOp):
        return text(e.left, env) + text(e.right, env)
    if isinstance(e, ast.JoinedStr):
        return ''.join(text(v.value if isinstance(v, ast.FormattedValue) else v, env) for v in e.values)
    return ast.unparse(e)


def harnesses(pid):
    p = os.path.join(ROOT, 'props', pid + '.py')
    if not os.path.exists(p):
        return [], []
    t = ast.parse(open(p).read())
    env = consts(t)
    out, ass = [], []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
            ass = [text(e, env) for e in n.value.elts]
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') in ('prove', 'bounded'):
                    fs = d.args[2] if len(d.args) > 2 else None
                    fs = [text(e, env) for e in fs.elts] if isinstance(fs, ast.List) else [ast.unparse(fs)] if fs is not None else []
                    out.append((d.func.id, text(d.args[1], env), fs))
    return out, ass


def main():
    notes = json.load(open(os.path.join(ROOT, 'tools', 'design_notes.json')))
    o = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties', '']
    levels = {c['property']: c['level'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']}
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(line)
        hs, ass = harnesses(p['id'])
        o += [f"### {p['id']} {p['title']} (level: {levels.get(p['id'], 'not applicable')})", '', p['statement'], '', notes.get(p['id'], ''), '']
        for k, n, fs in hs:
            o.append(f"- {'proved' if k == 'prove' else 'bounded'}: {n} ({', '.join(fs)})")
        o.append('')
        if ass:
            o += ['Left unchecked: ' + '; '.join(ass) + '.', '']
    o += ['## Defects found in spicelib', '', 'Recorded as known findings (not repaired, reported as KNOWN-FINDING on every run):', '']
    fixed = []
    for line in open(os.path.join(ROOT, 'known_findings.jsonl')):
        k = json.loads(line)
        if k['kind'] == 'finding':
            o.append(f"- {k['property']} `{k['key']}`: {k['what']}")
        else:
            fixed.append(f"- {k['property']} {k['commit']}: {k['what']}")
    o += ['', f'Repaired, one commit each ({len(fixed)}); the check of the property reports them again if they return:', ''] + fixed
    o += ['', '## Planted bugs', '', 'Each one passes the stable tests; the check named catches it (exit 1 with its VIOLATION line).', '',
          '| id | property | what it breaks | what it needs | caught by |', '|---|---|---|---|---|']
    for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m))
        by = notes.get('caught', {}).get(os.path.basename(os.path.dirname(m)), d['property'])
        o.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {by} |")
    o.append('')
    tail = os.path.join(ROOT, 'tools', 'design_tail.md')
    if os.path.exists(tail):
        o.append(open(tail).read())
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(o))


main()
