"""design_tables.py TAIL: fills the seed and cost tables of a DESIGN.md tail (development aid)."""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(sys.argv[1]).read()
rows = ["| change | property | what it breaks |", "| --- | --- | --- |"]
for d in sorted(glob.glob(H + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d[:-1]), m["property"], m["what_it_breaks"].replace("\n", " ").replace("|", "/")))
cost = ["| property | contracts | functions | obligations | wall s |", "| --- | --- | --- | --- | --- |"]
for f in sorted(glob.glob(H + "/evidence/P*.json")):
    e = json.load(open(f)); c = e["coverage"]
    cost.append("| %s | %d | %d | %d | %.0f |" % (e["property"], len(c["contracts"]), len(c["functions_under_contract"]), c["discharged"], e["wall_s"]))
print(s.replace("@@SEEDS@@", "\n".join(rows)).replace("@@COST@@", "\n".join(cost)))
