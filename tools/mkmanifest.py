#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
NA={
 "C31":"A pure function of its input: encoding and decoding one message meets no schedule, clock, fault or interleaving, so there is nothing to simulate (generated-input testing would decide it). Frames that go through the simulated server are still checked byte for byte under C01, C03, C17, C20.",
 "C32":"A pure conversion function without concurrency, time, I/O or faults.",
}
TODO={}
tech="deterministic simulation with fault injection: seeded search over schedules, workloads and faults"
NOTE={
 "default":"Seeded sampling of schedules, workloads and faults of the whole server in one process; every violation comes with a seed and a minimised replay. Trusts the source-to-source translation and the simulated Go primitives (self-tested); a clean batch is evidence, not proof.",
 "C21":"Every field, map and package-variable access of the translated code is checked by a vector-clock happens-before analysis in seeded runs; sees only races on executed paths. Trusts the translation's list of access sites.",
 "C14":"The default session manager runs on a simulated file system with a crash model (kill between or inside any file operations), injected I/O errors and short writes. The crash model is a process kill, not a power loss: the code never syncs, and the property does not promise it.",
}
props=[json.loads(l) for l in open(os.path.join(H,"properties.jsonl"))]
checks,na=[],[]
for p in props:
    i=p["id"]
    if i in NA: na.append(dict(property=i,reason=NA[i])); continue
    if i in TODO: na.append(dict(property=i,reason=TODO[i])); continue
    checks.append(dict(property=i,quick_cmd="tools/check.sh %s quick"%i,thorough_cmd="tools/check.sh %s thorough"%i,
      technique=tech,level="exploration",level_note=NOTE.get(i,NOTE["default"])))
m=dict(version=1,setup_cmd="tools/setup.sh",checks=checks,not_applicable=na,
  notes="No hooks in /repo: the seams are made by translating the working tree's source (sim/src/simgo) before it is compiled.")
with open(os.path.join(H,"MANIFEST.json"),"w") as f: json.dump(m,f,indent=1); f.write("\n")
