"""Writes the table of planted bugs into DESIGN.md; the ones named in PROOF are
rejected by a failed obligation alone (seedproofs.py)."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = set('''c01-hash-repr c02-option-state c03-record-unhashed c04-subarray-bound c05-field-order
c05-list-index c06-decimal-18 c11-name-digits c12-equals-field c14-named c15-isfixed-last-field
c17-function-arity c19-column c20-repeated c21-other-case c21-record-missing c22-typeset-replaced
c23-alias'''.split())
rows = ['| bug | caught by | needs | revealed by |', '|---|---|---|---|']
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'),
                                           'proof' if d in PROOF else 'bounded'))
p = HERE + '/DESIGN.md'
s = open(p, encoding='utf-8').read()
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',
           lambda m: '<!-- seeds -->\n%s\n<!-- /seeds -->' % '\n'.join(rows), s, flags=re.S)
open(p, 'w', encoding='utf-8').write(s)
