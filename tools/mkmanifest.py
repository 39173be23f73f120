#!/usr/bin/env python3
# writes MANIFEST.json from the list of properties and the list below
import json,subprocess
D=dict
FE="fault_enumeration"; EX="exploration"
C={
"C01":(FE,"deterministic simulation: every allocation of an operation is made to fail, one per run","seeded search over operations, histories and operand values; within a plan, up to 36 allocation points are enumerated"),
"C02":(FE,"deterministic simulation: failing operations (own errors and injected allocation failures) compared with runs without them","seeded search; up to 16 allocation points per plan"),
"C03":(EX,"deterministic simulation: histories compared with reduced and rebuilt twin runs","seeded search over histories; no bound proved"),
"C04":(EX,"deterministic simulation: seeded schedules of up to 3 threads with private objects, vector-clock race detection, allocation faults","seeded search over interleavings at memory-access granularity"),
"C05":(EX,"deterministic simulation: seeded schedules of up to 3 reader threads on shared objects, vector-clock race detection","seeded search over interleavings at memory-access granularity"),
"C06":(FE,"deterministic simulation: every file operation of a write is made to fail, short, or late, one per run","seeded search over images; I/O fault points of a write are enumerated"),
"C07":(FE,"deterministic simulation: drawing sequences under simulated locales and allocation failures, compared with fresh images","seeded search"),
"C08":(EX,"deterministic simulation: SVG files damaged by seeded truncation, corruption and loss on a simulated disk","seeded search over damaged documents"),
"C09":(EX,"deterministic simulation: import of a composite document compared with import of its elements alone","seeded search over documents"),
"C10":(EX,"deterministic simulation: draw, save, load and import on a simulated disk under simulated locales","seeded search over drawing sequences"),
"C11":(FE,"deterministic simulation: streams failing after every number of characters, with every format state","seeded search; failure positions enumerated up to 64 per text"),
"C12":(EX,"deterministic simulation: error and warning counters against the recorded history, also over seeded thread schedules","seeded search"),
"C13":(EX,"deterministic simulation: random generator behind a seam, seeded sequences, extremes and permutations against brute force","seeded search"),
"C14":(FE,"deterministic simulation: settings read between any two operations, with failing operations and allocation failures","seeded search"),
"C15":(EX,"deterministic simulation: step budget over operations under extreme values, random sequences, damaged files and allocation failures","seeded search"),
"C16":(EX,"deterministic simulation: simulated clock and random generator extremes","seeded search"),
"C17":(EX,"deterministic simulation: runs repeated with other memory contents, addresses, clock and unrelated work","seeded search"),
"C18":(EX,"deterministic simulation: histories in which operands are shared, compared with twin runs given copies of them","seeded search"),
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import re,os
impl=set(re.findall(r'\{ "(C\d\d)", "',''.join(open('/verif/sim/'+f).read() for f in ('chk.cpp','chk_threads.inc','chk_text.inc','chk_misc.inc','chk_alias.inc'))))
NA={l.split('|')[0]:l.split('|',1)[1].strip() for l in open('/verif/tools/na.txt') if '|' in l}
m=D(version=1,setup_cmd="bash build.sh d s f l cv",
 hooks=D(guard="none",enable="no hooks are needed: the heap, threads, files, clock, random generator and streams are intercepted at link level and memory accesses by compiler instrumentation",source_commits=[]),
 checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i in C and i in impl:
        lv,t,n=C[i]
        m['checks'].append(D(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t,level=lv,level_note=n))
    else:
        m['not_applicable'].append(D(property=i,reason=NA.get(i,"check not built yet")))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']),'claimed',len(m['not_applicable']),'na')
