#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md from the harness sources and seeded/."""
import re, glob, json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
fns = {}
for f in sorted(glob.glob(D + '/harness/h/*.go')):
    l = open(f).read().split('\n')
    for i, x in enumerate(l):
        m = re.match(r'func (\w+)\(', x)
        if m:
            j = i
            while j and l[j-1].startswith('//'):
                j -= 1
            k = i
            while l[k] != '}' and not (k == i and x.endswith('}')):
                k += 1
            fns[m.group(1)] = ('\n'.join(l[j:i]), '\n'.join(l[i:k]))
last = ''
for n in sorted(fns):
    if not re.match(r'C\d\d_', n):
        continue
    doc, body = fns[n]
    doc = ' '.join(l[3:] for l in doc.splitlines())
    doc = re.sub(r'^' + n + r':?\s*', '', doc)
    b = []
    for x in ('Bound', 'String', 'StringIn', 'Bytes', 'Byte', 'Int', 'Int64', 'Uint64', 'Int32', 'Uint32', 'Int8', 'Bool', 'IntIn', 'Int16', 'Uint16'):
        k = re.findall(r'sym\.' + x + r'\(((?:[^()]|\([^()]*\))*)\)', body)
        for a in k:
            t = x + '(' + a + ')'
            if t not in b and len(t) < 60:
                b.append(t)
    for h in ('xmlText', 'anyVersion', 'newGen', 'shapeDoc', 'anyField'):
        if re.search(r'\b' + h + r'\(', body):
            b.append(h)
    if n[:3] != last:
        last = n[:3]
        out.append('')
    out.append('* `%s` %s%s' % (n, doc or '', ' [' + ', '.join('`' + x + '`' for x in b[:6]) + ']' if b else ''))
missed = {'b07-close-twice': 'C18_history', 'b10-taglist-lang': 'C23_taglist', 'b11-grow': 'C05_index', 'b12-splitint': 'C11_splitint_parts', 'b18-list-gap': 'C07_gaps', 'b21-merge-alias': 'C21_separate', 'b28-gps-frac': 'C16_gpstime'}
missed.update(json.load(open(D + '/tools/missed.json')))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(D + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    c = m['property'] + ' quick'
    if i in missed:
        c += ' * (' + missed[i] + ')' if missed[i] else ''
        if missed[i] is None:
            c = 'missed'
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), c))
p = D + '/DESIGN.md'
s = open(p).read()
def put(s, tag, text):
    return re.sub(r'(<!-- begin %s -->\n).*?(<!-- end %s -->)' % (tag, tag), lambda m: m.group(1) + text + '\n' + m.group(2), s, flags=re.S)
s = put(s, 'harnesses', '\n'.join(out).strip())
s = put(s, 'bugs', '\n'.join(rows))
open(p, 'w').write(s)
