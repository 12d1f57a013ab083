#!/usr/bin/env python3
"""Writes spec/FieldVals.tla from `psbt-harness samples`: two keys and two values of every field."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = [json.loads(l) for l in open(sys.argv[1])]
out = ["------------------------------ MODULE FieldVals ------------------------------",
       "(* Generated by tools/mkvals.py: concrete keys and values of every field, as   *)",
       "(* <<map, field, keydata, value>>; used by the design models.                   *)",
       "EXTENDS Psbt", "FV == {"]
ents = []
# The second value of these is a special one: zero, empty, as small as possible.
Z = {"fallback": "00" * 4, "mod": "00", "sequence": "00" * 4, "minheight": "00" * 4, "wutxo": "00" * 9, "sighash": "00" * 4, "redeem": "", "wscript": "", "fsig": "",
     "tapmerkle": "00" * 32, "spinfo": "00" * 66, "splabel": "00" * 4, "dleq": "00" * 64, "bip32": "00" * 4, "xpub": "00" * 4}
for m, f, k, vs in rows:
    if f in Z and Z[f] not in vs: vs = [vs[0], Z[f]]
    if f in ("prop", "unk", "ripemd", "sha256", "hash160", "hash256", "tapleaf"): pass
    for v in vs: ents.append('  <<"%s", "%s", "%s", "%s">>' % (m, f, k, v))
    if f in ("prop", "unk") and len(vs) == 1: ents.append('  <<"%s", "%s", "%s", "%s">>' % (m, f, k, "7777" if vs[0] != "7777" else "78"))
out.append(",\n".join(ents) + "\n}")
out += ["FieldsOf(m) == {e[2] : e \\in {x \\in FV : x[1] = m}}",
        "EntriesOf(m, f) == {<<e[2], e[3], e[4]>> : e \\in {x \\in FV : x[1] = m /\\ x[2] = f}}",
        "(* What one participant may know of a field: at most one value for each key *)",
        "Know(m, f) == {S \\in SUBSET EntriesOf(m, f) : Cardinality(Keys(S)) = Cardinality(S)}",
        "=" * 78]
open(os.path.join(R, "spec", "FieldVals.tla"), "w").write("\n".join(out) + "\n")
