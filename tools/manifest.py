import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={"C23":"The IOCP backend talks to the undocumented AFD driver and to NT calls resolved at run time, through windows-sys, none of which exists here; a model of that kernel could be compared neither with the system nor with any written contract, so a verdict would say nothing about the code."}
TECH="bounded symbolic execution of the compiled crate (LLVM IR regenerated from /repo) with an own engine; z3/cvc5 decide every branch and assertion; counterexamples replayed natively"
note="Every assertion holds for all values of the symbolic inputs%s within the bounds listed per harness in the evidence; assumes the kernel and std models in /verif/shims, sequentially consistent memory, and rustc's translation to IR."
extra={"C06":", all timeouts and arrival times","C07":", all interruption points","C08":" and all interleavings at synchronisation points and system calls","C09":" and all interleavings at synchronisation points and system calls","C10":" and all interleavings at synchronisation points and system calls","C11":" and all failures of system calls","C19":", all histories, schedules and failures of system calls","C22":", all histories, schedules and failures of system calls","C13":" and all failures of system calls","C14":" and all interleavings","C26":", all schedules and histories","C21":" and all histories and interleavings"}
checks=[{"property":p["id"],"quick_cmd":"python3 bin/check.py "+p["id"],"thorough_cmd":"python3 bin/check.py %s --tier thorough"%p["id"],
 "technique":TECH,"level":"model_checking","level_note":note%extra.get(p["id"]," and all choices of the histories")} for p in props if p["id"] not in NA]
json.dump({"version":1,"setup_cmd":"python3 bin/setup.py","checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"No hooks in /repo: the checks compile a copy of its sources against model crates. Defects found and repaired are in known-findings.txt; design, bounds and limits in DESIGN.md."},
 open('/verif/MANIFEST.json','w'),indent=1)
