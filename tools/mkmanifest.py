import json,re,glob
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
src=''.join(open(f).read() for f in glob.glob('/verif/harness/src/*.rs'))
NOTE={}
try: NOTE=json.load(open('/verif/tools/notes.json'))
except FileNotFoundError: pass
checks=[];na=[]
for p in props:
    i=p['id']
    if re.search(r'extern "C" fn h_%s_'%i.lower(),src):
        checks.append(dict(property=i,quick_cmd='python3 check.py %s'%i,thorough_cmd='VERIF_TIER=thorough python3 check.py %s'%i,evidence_file='evidence/%s.json'%i,
          technique='symbolic execution of the crate\'s LLVM IR, path conditions and assertions decided by z3 (bounded), counterexamples replayed natively',
          level='model_checking',
          level_note=(NOTE.get(i,'')+' Exhaustive over every value of the symbolic bytes within the bounds stated per harness in the evidence file; nothing outside them. Trusted: rustc/LLVM lowering, the symbolic engine in /verif/engine (validated each run by native replay of sampled paths), z3, the environment stubs listed in DESIGN.md.').strip()))
    else: na.append(dict(property=i,reason=NOTE.get(i,'no check built yet')))
m=dict(version=1,setup_cmd='bash bin/setup.sh',checks=checks,not_applicable=na,notes='No hooks in /repo are needed: every harness uses the public API. Known and fixed findings: known-findings.txt.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
