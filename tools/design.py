#!/usr/bin/env python3
# writes DESIGN.md from doc/design_head.md, doc/design_props.md, known_findings.jsonl, MANIFEST.json, seeded/*/meta.json, doc/caught.json, doc/design_tail.md
import json, os, glob, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); D = lambda n: open(os.path.join(V, 'doc', n)).read()
M = json.load(open(os.path.join(V, 'MANIFEST.json'))); P = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))}
o = D('design_head.md').rstrip() + '\n\n' + D('design_props.md').rstrip() + '\n\n'
o += '## 4. Properties not claimed\n\n' + ''.join('* **%s – %s**: %s\n' % (n['property'], P[n['property']]['title'], n['reason']) for n in M['not_applicable']) + '\n'
K = [json.loads(l) for l in open(os.path.join(V, 'known_findings.jsonl'))]
c = collections.Counter(k['property'] for k in K if k['status'] == 'fixed')
o += '## 5. Genuine defects found\n\n%d were repaired by small "fix:" commits in /repo (per property: %s); `known_findings.jsonl` has one "fixed" line for each, which suppresses nothing. The rest were recorded, because an existing test or its reference output asserts the wrong value or the intended behaviour is not documented:\n\n' % (sum(c.values()), ', '.join('%s %d' % x for x in sorted(c.items())))
o += ''.join('* %s `%s`: %s\n' % (k['property'], k['sig'], k['what']) for k in K if k['status'] == 'known') + '\n'
o += D('design_tail.md').rstrip() + '\n\n'
C = json.loads(D('caught.json'))
o += '## 7. Planted bugs and what catches them\n\nEach of these compiles and passes all stable tests, and its demonstration fails with it and passes without (`tools/plant.sh`). The last column is what the quick check of the property said.\n\n| seeded/ | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    i = f.split('/')[-2]; m = json.load(open(f)); o += '| %s | %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], m['what_it_breaks'], C.get(i, 'see vcheck'))
o += '\n' + D('design_mut.md') if os.path.exists(os.path.join(V, 'doc', 'design_mut.md')) else ''
open(os.path.join(V, 'DESIGN.md'), 'w').write(o)
