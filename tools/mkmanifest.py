import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
HIST="stateful property-based testing: random source/run histories of the real binary under a system-call shim with virtual time, judged at every mutating call by a reference model; shrinking to a minimal history"
NET="stateful property-based testing of the real binary against a generated loopback TLS source (or directory): random histories, certificates, answers and pre-staged files; every open and request compared with the reference model's exact set; shrinking to a minimal history"
C={
"C01":(HIST+"; crash-point sweeps",""),
"C02":(HIST,""),"C03":(HIST,""),"C04":(HIST+"; crash-point sweeps",""),"C05":(HIST,""),"C06":(HIST,""),"C07":(HIST,""),"C08":(HIST,""),"C09":(HIST,""),
"C10":(HIST+"; crash-point sweeps",""),"C25":(HIST,""),"C17":(NET,""),"C18":(NET,""),"C19":(HIST,""),"C22":(HIST,""),
}
C["C12"]=("property-based testing of the real binary against generated hostile sources: every mutating system call judged for its place by a confinement oracle under the shim, before/after comparison of everything outside, and a clean version which must be published afterwards; shrinking to a minimal history","Redirects are not generated.")
C["C11"]=("property-based testing of schedules: generated interleavings of up to four real invocations, stepped one file-system, lock or sleep call at a time under the shim, with kills and a moving source, judged by a mutual-exclusion and recovery oracle; shrinking to a minimal schedule","Interleavings are at system-call granularity.")
C["C13"]=(HIST.replace("judged at every mutating call by a reference model","with generated validation scripts that record what they see, judged by a reference model"),"Scripts that cannot be started are not generated.")
C["C23"]=("property-based testing of the real binary over generated directory, source and notification arguments: place and content of all output and a complete listing of what came into being, or refusal without writing; shrinking to a minimal argument list","")
C["C15"]=("property-based testing over generated RPKI trees (keys, certificates, manifests, CRLs, signed objects, several repositories) with generated faults: the real binary's verdict and counts and, through the crate's API, the complete report are compared with an independent model of what is valid; shrinking to a minimal tree","If the API has changed so that the library worker no longer builds, the binary alone is judged.")
C["C14"]=("stateful property-based testing: histories of versions of generated RPKI trees (faults that come, go and expire under virtual time) and runs of the real binary with and without trust anchor and rejection, verdict and publication compared with an independent model; shrinking to a minimal history","")
C['C21']=('stateful property-based testing: histories of generated RPKI trees over several repositories (versions, sessions, serials going back, faulty notifications, delta lists, deltas and snapshots, hosts that are down) and validating runs of the real binary under virtual time; every look-up and request judged by a reference model of what may be asked when','')
C['C24']=("stateful property-based testing: histories of generated RPKI trees over several repositories (versions, sessions, serials going back, faulty notifications, delta lists, deltas and snapshots, hosts that are down) and validating runs of the real binary under virtual time; saved copies and verdict compared with a reference model that knows each repository's versions",'')
C['C16']=('property-based testing: generated certificates, CRLs and signed objects with arbitrary times, histories of updates, interrupted runs and lost state of the real binary; modification time of every file below current compared with the generated time after every run and whenever current changes; shrinking','')
C['C20']=('property-based fuzzing of the real binary (built with overflow checks): structured and byte-wise mutations of one input (notification, snapshot, delta, objects, saved state, TAL, TA certificate, options) after regular runs, hashes following the changed content; oracle: orderly exit within resource limits, public trees unchanged or consistent; shrinking','')
import os,sys
sys.path.insert(0,'/verif/tools')
try:
    from claims import CLAIMS
    C.update(CLAIMS)
except ImportError: pass
NOTE="Search over generated cases only: no violation among the cases counted in the evidence file, not a proof. Trusts the harness's model of the source and of relying parties, the shim's view of libc calls, and (for crash points) that file-system calls take effect in program order. "
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in C:
        m["checks"].append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":C[i][0],"level":"exploration","level_note":(NOTE+C[i][1]).strip()})
    else:
        m["not_applicable"].append({"property":i,"reason":"check not built yet"})
m["notes"]="No hooks are needed: the binary under test is built unmodified from /repo and observed from outside (LD_PRELOAD shim), the validator through the crate's public API. Known findings and repaired defects: known_findings.txt."
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
