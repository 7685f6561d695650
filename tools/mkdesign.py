#!/opt/venv/bin/python
"""Writes DESIGN.md: tools/design.txt plus what the checks, the planted bugs and the findings file say about themselves."""
import ast
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(prop):
    ns = {}
    src = open(os.path.join(HERE, 'pbt', 'props', prop.lower() + '.py'), encoding='utf-8').read()
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', None) in ('RULE', 'ASSUME', 'BUDGET', 'EXAMPLES'):
            try:
                ns[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                ns[n.targets[0].id] = []
    return ns


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
    text = open(os.path.join(HERE, 'tools', 'design.txt'), encoding='utf-8').read()
    oracle = {}
    m = re.search(r'^@oracles\n(.*?)^@end\n', text, re.S | re.M)
    for block in re.split(r'^(?=C\d\d: )', m.group(1), flags=re.M):
        if block.strip():
            oracle[block[:3]] = ' '.join(block[4:].split())
    text = text[:m.start()] + text[m.end():]
    bugs = {}
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        meta = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
        bugs.setdefault(meta['property'], []).append((d, meta))
    out = []
    for p in props:
        c = constants(p['id'])
        b = c['BUDGET']
        out.append('### %s: %s\n' % (p['id'], p['title']))
        out.append('*Generated.* %s\n' % c['RULE'])
        out.append('*Oracle.* %s\n' % oracle[p['id']])
        out.append('*Bounds and assumptions.* %s. Quick: %d cases, thorough: %d cases (8 processes).\n' % ('; '.join(c['ASSUME']), b['quick'], b['thorough']))
        out.append('*Beyond the tests.* %s\n' % p['why_tests_cant'])
        out.append('*Planted bugs caught.* %s.\n' % (', '.join('`%s`' % d for d, _ in bugs.get(p['id'], [])) or 'none'))
    table = ['| planted bug | check | needs | what it breaks |', '|---|---|---|---|']
    for prop in sorted(bugs):
        for d, meta in bugs[prop]:
            table.append('| %s | %s | %s | %s |' % (d, prop, meta['needs'], meta['what_it_breaks']))
    found = {}
    for l in open(os.path.join(HERE, 'known_findings.jsonl'), encoding='utf-8'):
        d = json.loads(l)
        found.setdefault(d['status'], []).append(d)
    known = '\n'.join('* %s: %s' % (d['property'], d['what']) for d in found.get('known', []))
    fixed = '\n'.join('* ' + d['what'].replace('fixed: property=', '') for d in found['fixed'])
    for key, value in (('@properties', '\n'.join(out)), ('@bugs', '\n'.join(table)), ('@known', known), ('@fixed', fixed),
                       ('@nfixed', str(len(found['fixed']))), ('@nbugs', str(sum(map(len, bugs.values()))))):
        assert key in text, key
        text = re.sub(r'%s\b' % key, lambda m: value, text)
    open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8').write(text)


main()
