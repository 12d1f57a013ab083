"""Prints a replay file in short form."""
import json, sys
r = json.load(open(sys.argv[1]))
print(r["message"])
c = r.get("case", r)
p = c.get("p") or r["record"]["p"]
print("g", [[x[:70] for x in e] for e in p["g"]])
for k, i in enumerate(p["i"]):
    if "spends" in c:
        s = c["spends"][k]
        print(s["kind"], json.dumps(s["pol"])[:300])
    for e in i:
        print("  ", [x[:140] for x in e])
