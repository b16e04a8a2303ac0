"""Rewrites the table of proved units in DESIGN.md (between the markers)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import dv
from dv.contract import *
from specs import all as A


class Reg(list):
    def add(self, c):
        self.append(c)


def main():
    reg = Reg()
    A.load(reg)
    proved = json.load(open(os.path.join(HERE, 'proved.json')))
    rows = {}
    for c in reg:
        if c.key not in proved:
            continue
        for p in c.props or ('(used by others)',):
            rows.setdefault(p, []).append((c.key[2:], c.target, proved[c.key]['obligations']))
    out = ['| property | units under contract | obligations |', '|---|---|---|']
    for p in sorted(rows):
        names = ', '.join('`%s`' % t.split(':')[1] if not t.startswith('lemma') else k
                          for k, t, _ in rows[p])
        out.append('| %s | %d: %s | %d |' % (p, len(rows[p]), names, sum(n for _, _, n in rows[p])))
    out.append('')
    out.append('%d units, %d obligations in all.' % (
        len(proved), sum(v['obligations'] for v in proved.values())))
    path = os.path.join(HERE, 'DESIGN.md')
    s = open(path).read()
    a, b = '<!-- units -->\n', '<!-- /units -->'
    i, j = s.index(a) + len(a), s.index(b)
    open(path, 'w').write(s[:i] + '\n'.join(out) + '\n' + s[j:])


main()
