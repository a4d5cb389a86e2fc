import json,sys,os
sys.path.insert(0,"/verif"); import props
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NA={"W01":"progress (wait-freedom, starvation freedom) is a liveness property; contracts with pre/postconditions decide safety and partial correctness only, and no termination measure over fair schedules is expressible in the generator",
"W02":"the verification-condition generator gives shared accesses sequentially consistent semantics; deciding fence sufficiency needs a weak-memory program logic that is not installed"}
M=dict(version=1,setup_cmd="python3 /verif/setup.py",hooks=dict(guard="none",enable="no hooks: /repo is compiled unchanged",source_commits=[]),checks=[],not_applicable=[])
for i in ids:
    if i in props.P:
        c=props.P[i]
        M["checks"].append(dict(property=i,quick_cmd="python3 /verif/check.py %s quick"%i,thorough_cmd="python3 /verif/check.py %s thorough"%i,technique=c["technique"],level=c["level"],level_note=c["note"] or "All obligations of the listed functions are discharged for all inputs, schedules and iterations; bounded executions only search for counterexamples. Trusted: LLVM front end, the VC generator, z3, the field-based memory model, sequential consistency."))
    else: M["not_applicable"].append(dict(property=i,reason=NA.get(i,"no check built yet")))
json.dump(M,open("/verif/MANIFEST.json","w"),indent=1)
print(len(M["checks"]),"claimed")
