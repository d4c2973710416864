#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties the drivers list."""
import json,subprocess,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
have=set()
for b in ("pipe","core","num","mats","srch"):
    try: have|=set(subprocess.run([f"{V}/target/debug/{b}","list"],capture_output=True,text=True).stdout.split())
    except FileNotFoundError: pass
oracle={
"C01":"generated search configurations run through the real program against independent validity predicates",
"C02":"generated search configurations run through the real program against a brute-force enumeration of all classes (and published lists for larger lengths)",
"C03":"generated search configurations run through the real program, class keys computed by an independent group action",
"C04":"generated search configurations run through the real program against a brute-force enumeration",
"C05":"metamorphic: pairs of configurations of the real program must agree up to equivalence",
"C06":"generated result files converted by the real program, checked against independent Hadamard predicate and equivalence test",
"C07":"property-based testing of the library against an independent Hadamard equivalence test, metamorphic over order and scrambling",
"C08":"generated result files converted by the real program against an independent construction in quaternion arithmetic",
"C19":"generated pair files joined by the real program against a nested-loop reference join",
"C26":"model-based testing: generated histories of script runs against a model of the results tree",
"C28":"fault injection: generated search steps of the real program under generated file-size limits, failing, short and interrupted file operations and kills (an LD_PRELOAD stand-in), against the same steps without a limit",
"C29":"model-based testing: generated histories of the real program and concurrent jobs under generated schedules of their file operations, each command against the same command in a fresh directory",
"C30":"generated invalid command lines given to the real program over finished searches, the tree compared before and after",
"C31":"generated search configurations and hand-made pair files run through the real program, its reported counts against counts of the files",
"C27":"generated result files given to the real command against an independent predicate",
}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in have:
        checks.append(dict(property=i,quick_cmd=f"./check {i}",thorough_cmd=f"./check {i} thorough",evidence_file=f"evidence/{i}.json",
          technique="property-based testing: "+oracle.get(i,"generated inputs against an independent reference implementation, with shrinking"),
          level="exploration",
          level_note="Explores generated cases only (exhaustively where the evidence says so for small lengths); trusts the independent reference in harness/src/kit/refs.rs and the toolchain."))
    else:
        na.append(dict(property=i,reason="no check is built for it yet"))
src=subprocess.run(["git","-C","/repo","log","--format=%H","--grep=verif_hooks re-exports"],capture_output=True,text=True).stdout.split()
m=dict(version=1,setup_cmd="harness/build.sh",
 hooks=dict(guard="--cfg verif_hooks",enable="harness/build.rs emits cargo:rustc-cfg=verif_hooks; harness/Cargo.toml compiles /repo/rust/src/main.rs as its library and as the program",source_commits=src),
 checks=checks,not_applicable=na,
 notes="./check <id> [thorough] rebuilds from /repo's working tree and runs one property; ./check replay <file> re-runs a saved failing case.")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not claimed")
