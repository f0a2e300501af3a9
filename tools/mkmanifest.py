import json
ps=[json.loads(l) for l in open("/verif/properties.jsonl")]
generic={"C05":"Every function of the package is additionally checked for panics (nil dereference, index and slice bounds, failed type assertions, division, explicit panic), the preconditions of its callees and the class invariants of what it returns.",
"C04":"Every function that takes and returns error-carrying values is additionally checked: an erroneous argument gives an erroneous result.",
"C14":"Every function is additionally checked for its frame: nothing that existed before the call is written."}
note="Each obligation generated from the current source of the functions under contract is discharged by the term simplifier, z3 or cvc5, for all inputs; obligations and functions not discharged are listed in the evidence file as open, never counted as proved, and covered only by the bounded replay program. Trusted: the obligation generator (engine/), go/ssa, the solvers, the models of the Go standard library; integers are mathematical. "
checks=[]
for p in ps:
    i=p["id"]
    checks.append(dict(property=i,quick_cmd=f"bin/vc check {i}",thorough_cmd=f"bin/vc check {i}",technique="contract-based deductive verification: contracts on the functions of /repo, obligations by symbolic execution of go/ssa, discharged by z3 and cvc5",level="proof",level_note=note+generic.get(i,"")))
json.dump(dict(version=1,setup_cmd="bash build.sh",checks=checks,not_applicable=[],notes="No hooks are needed in /repo: contracts are type-checked inside the package through an overlay. contracts/ holds the contracts, engine/ the verifier, replay/ the program that looks for failing inputs, open.json what is not discharged on the unchanged tree, known-findings.txt the findings."),open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
