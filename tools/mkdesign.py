#!/usr/bin/env python3
"""Write DESIGN.md from design_head.md, properties, checks, findings, planted bugs (seeded/*/meta.json) and tools/caught.json."""
import json, os, re, textwrap, glob
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')); out = [open(V + '/tools/design_head.md').read()]
notes = json.load(open(V + '/tools/design_notes.json')); caught = json.load(open(V + '/tools/caught.json'))
def cstr(t, name):
    m = re.search(name + r' = ((?:"(?:[^"\\]|\\.)*"\s*)+);', t); return ''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))).replace('\\"', '"').replace('\\n', '\n')
def wrap(s, ind='', first=None): return '\n'.join(textwrap.fill(p, 80, initial_indent=first if first is not None else ind, subsequent_indent=ind, break_long_words=False, break_on_hyphens=False) for p in s.split('\n'))
for l in open(V + '/known_findings.txt'):
    m = re.match(r'(fixed|open): property=(\S+) (\w+) (.*)', l)
    if m: out.append(wrap('%s `%s`: %s' % (m.group(2), m.group(3), m.group(4)), '  ', '* '))
out.append('\n' + open(V + '/tools/design_mid.md').read())
out.append('## 6. The properties, one by one\n')
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); i = d['id']; t = open(V + '/checks/%s.cpp' % i).read()
    out.append('### %s. %s\n' % (i, d['title'])); out.append(wrap(d['statement']) + '\n')
    out.append(wrap('Generated and compared: ' + cstr(t, 'RULE')) + '\n')
    a = cstr(t, 'ASSUMPTIONS')
    if a: out.append(wrap('Assumed: ' + a.replace('\n', '; ') + '.') + '\n')
    out.append(wrap('Targets (quick / thorough cases): ' + '; '.join('%s %s / %s' % m for m in re.findall(r'static Target \w+\("([^"]+)", (\d+), (\d+)', t)) + '.') + '\n')
    out.append(wrap('Why this reaches what the tests cannot: ' + d['why_tests_cant'] + ' ' + notes.get(i, '')) + '\n')
out.append('## 7. Planted bugs, and which checks catch them\n')
out.append(wrap('Every entry was confirmed in a scratch copy: it builds, passes the stable tests, and its demonstration fails with it and passes without it. "caught" is the result of the quick check of its property; other checks that also catch it were not recorded systematically.') + '\n')
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(p)); m = json.load(open(p)); c = caught.get(n)
    out.append(wrap('`%s` (%s): %s. Needs: %s. %s' % (n, m['property'], m['what_it_breaks'], m['needs'], {True: 'Caught.', False: 'NOT caught.', None: 'Not run yet.'}[c]), '  ', '* '))
open(V + '/DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n'); print(sum(len(x.splitlines()) for x in out), 'lines')
