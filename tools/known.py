"""tools/known.py PROP COMMIT TEXT: records a repaired defect."""
import json
import sys
p, c, t = sys.argv[1:4]
with open('/verif/KNOWN_FINDINGS.jsonl', 'a') as f:
    f.write(json.dumps({'property': p, 'status': 'fixed', 'commit': c, 'what': 'fixed: property=%s %s %s' % (p, c, t)}) + '\n')
