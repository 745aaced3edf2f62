"""kf.py PROP COMMIT what: record a fixed defect"""
import sys, json, os
p = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
d = json.load(open(p))
prop, c, what = sys.argv[1:4]
l = d if isinstance(d, list) else d['findings']
l.append({"property": prop, "status": "fixed", "commit": c, "record": "fixed: property=%s %s %s" % (prop, c, what)})
json.dump(d, open(p, 'w'), indent=1)
