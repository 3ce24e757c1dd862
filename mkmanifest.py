#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={}
note={
"C03":"Twin histories: every run is executed twice, with and without its extra claims, and the totals paid are compared.",
"C20":"Differential: requests are built by the shipped builders, the generated client, its cross-program calls and the IDL, and executed against hand-written ones on copies of the same state.",
"C22":"Differential: requests are built by the shipped JavaScript client (bundled from the working tree, run by node over a stand-in for umi) and executed against hand-written ones on copies of the simulated state; accounts reached by the histories are read and searched with it.",
"C21":"Aborts at any runtime call, failing cross-program calls, failing trailing instructions; every clean run is executed again from its recorded steps and compared byte by byte.",
"C18":"Long capacity histories (years of daily stakes and distributions) dominate this check's runs.",
}
checks=[]
for p in props:
    i=p["id"]
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}",
      "technique":"deterministic simulation with fault injection, seeded search against a reference model",
      "level":"exploration",
      "level_note":"Seeded sampling of whole multi-actor histories on the real program code under a simulated runtime, clock, network and fault injector, judged step by step by an exact reference model; a clean batch is evidence, not proof. "+note.get(i,"")+" Trusts the simulated runtime's account, privilege, rent and commit rules and the native build of the program."})
m={"version":1,"setup_cmd":"./check.sh build","checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"No hooks in /repo: the program's only sources of nondeterminism (clock, rent, accounts, cross-program calls, return data) already go through solana_program's syscall stubs, which the simulator replaces. Recorded and repaired defects: known_findings.json. Replay a failure with sim/target/release/rsim replay <file>."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
