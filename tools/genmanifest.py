#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the harness files that exist (run by hand)."""
import json, glob, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = set(re.findall(r'^func (C\d\d)_', ''.join(open(f).read() for f in glob.glob(root + '/harness/*.go')), re.M))
tech = "bounded symbolic execution of the Go SSA of /repo with SMT (z3/cvc5); counterexamples replayed natively"
note = ("Within the bounds stated per harness in the evidence file the solver decides the assertions for every value. "
        "Trusted: the gosym interpreter and its models of the standard library (net, os, time, crypto, json, big), each path's witness being "
        "replayed against the natively compiled code; SHA-256 and ECDSA are modelled as injective / unforgeable functions. ")
extra = json.load(open(root + '/tools/notes.json')) if os.path.exists(root + '/tools/notes.json') else {}
na = {
 "C31": "decided by the standard library's ECDSA, ASN.1 and X.509 code, whose inputs are curve points: no solver reach, and the engine models signatures as ideal, so a check would only test the model",
}
checks, notapp = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking", level_note=note + extra.get(i, "")))
    else:
        notapp.append(dict(property=i, reason=na.get(i, "no check has been built yet")))
json.dump(dict(version=1, setup_cmd="bash ./setup.sh", hooks=dict(guard="verif", enable="none needed: harnesses are added to a package overlay outside /repo; no hook exists in /repo", source_commits=[]),
    checks=checks, not_applicable=notapp), open(root + '/MANIFEST.json', 'w'), indent=1)
print([c['property'] for c in checks])
