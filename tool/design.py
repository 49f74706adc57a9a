#!/usr/bin/env python3
"""Rewrites the per-property section of DESIGN.md from the rules and properties.jsonl."""
import ast, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    t = ast.parse(open(path).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('TECHNIQUE', 'ASSUMPTIONS'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    rules = []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rule' and len(n.args) == 2 and all(isinstance(a, ast.Constant) for a in n.args):
            rules.append((n.args[0].value, n.args[1].value))
    return out.get('TECHNIQUE', ''), out.get('ASSUMPTIONS', []), list(dict.fromkeys(rules))


def main():
    parts = []
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        d = json.loads(l)
        f = os.path.join(ROOT, 'rules', d['id'].lower() + '.py')
        if not os.path.exists(f):
            continue
        tech, ass, rules = consts(f)
        parts.append(f"### {d['id']} {d['title']}\n\n*How:* {tech}.\n\n*Obligations:* " + '; '.join(f'`{a}` {b}' for a, b in rules) + '.\n\n'
                     + '*Assumes:* ' + '; '.join(ass) + '.\n\n*Beyond tests:* ' + d['why_tests_cant'] + '\n')
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read()
    a, b = '<!-- properties -->\n', '<!-- end of properties -->'
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n' + '\n'.join(parts) + '\n' + s[j:]
    rows = []
    sd = os.path.join(ROOT, 'seeded')
    for x in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, x, 'meta.json')))
        rows.append(f"* {x} ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']} Caught by: {m.get('caught_by', m['property'])}.")
    a, b = '<!-- seeded -->\n', '<!-- end of seeded -->'
    i, j = s.index(a) + len(a), s.index(b)
    open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])


main()
