#!/usr/bin/env python3
# tools/fixed.py PROP COMMIT TEXT: record a repaired defect
import sys, json, os
p, c, t = sys.argv[1:4]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl'), 'a') as f:
    f.write(json.dumps({"status": "fixed", "property": p, "commit": c, "what": "fixed: property=%s %s %s" % (p, c, t)}) + '\n')
