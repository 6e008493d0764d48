#!/usr/bin/env python3
# Generates /verif/MANIFEST.json.
import json,os,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
"N01":"pure functions of their input (printing and parsing of enumerations): no concurrency, time, I/O, fault or history for a simulated schedule to decide",
"N02":"pure argument validation in option constructors: no schedule, fault or history is involved, so simulation would only be example testing",
"N03":"pure data transformation; its use inside streams is decided by C16, its robustness against hostile input by C20",
}
NOTE="Seeded search over simulated executions: inputs, histories, configurations, fragmentation, schedules and faults are drawn from one seed per run; the absence of a violation is evidence in proportion to the runs reported, not a proof."
SPECIAL={
"C15":NOTE+" The simulator chooses the schedule; the Go race detector's happens-before engine, with the simulator's own synchronisation hidden from it, judges every execution.",
"C19":NOTE+" The command runs as a subprocess whose os, flag and log access goes to a simulated process environment; one seed is one execution.",
}
scen={}
checks=[]
impl=set(re.findall(r'ID:\s*"(C\d+)"',"".join(open('/verif/sim/props/'+f).read() for f in os.listdir('/verif/sim/props'))))
na=[]
for p in props:
    i=p["id"]
    if i in NA: na.append({"property":i,"reason":NA[i]}); continue
    if i not in impl: na.append({"property":i,"reason":"check not built yet"}); continue
    checks.append({"property":i,"quick_cmd":f"bin/check {i} quick","thorough_cmd":f"bin/check {i} thorough",
      "technique":"deterministic simulation with fault injection (seeded search over inputs, histories, schedules and faults; reference models; replayable minimised failures)",
      "level":"exploration","level_note":SPECIAL.get(i,NOTE)})
m={"version":1,"setup_cmd":"bin/setup","checks":checks,"not_applicable":na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
print(len(checks),len(na))
