"""fixed.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json"""
import json, os, sys
f = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/known_findings.json'
k = json.load(open(f))
p, c, w = sys.argv[1:4]
k['findings'].append(dict(status='fixed', property=p, commit=c, what='fixed: property=%s %s %s' % (p, c, w)))
json.dump(k, open(f, 'w'), indent=1)
