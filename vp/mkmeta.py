"""writes properties.jsonl and MANIFEST.json from vp/props.py"""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vp.props import PROPS, NA, NOTES
TRUST = "Trusted: the symbolic interpreter in vp/, z3/cvc5, numpy indexing, wcslib/FFT/SHT libraries; floats are treated as reals in the proofs. Parts the verifier cannot reach are decided by a bounded run of the same contract on the real code (labelled bounded in the evidence, never counted as discharged)."
with open(os.path.join(VERIF,"properties.jsonl"),"w") as f:
    for p in PROPS+NA:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"], why_tests_cant=p["why"], anchors=p["anchors"])
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d)+"\n")
man = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[], notes=NOTES)
for p in PROPS:
    man["checks"].append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
        technique=p.get("technique","contract-based deductive verification: symbolic execution of the real Python source against pre/postconditions, SMT-discharged; bounded run-time contracts where stated"),
        level=p.get("level","proof"), level_note=p["note"]+" "+TRUST))
for p in NA: man["not_applicable"].append(dict(property=p["id"], reason=p["reason"]))
json.dump(man, open(os.path.join(VERIF,"MANIFEST.json"),"w"), indent=1)
