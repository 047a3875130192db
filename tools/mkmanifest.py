#!/usr/bin/env python3
# Writes MANIFEST.json: a check for every property registered in the simulation,
# and the list of those that are not claimed.
import json,subprocess,sys
have={l.split()[0] for l in subprocess.run(['./check','list'],cwd='/verif',capture_output=True,text=True,check=True).stdout.splitlines()}
NA={
'C21':'The trie (src/util/trie_util.go) has no caller, no concurrency, time, I/O or randomness, and its insertion, removal and iteration are unfinished (several functions are stubs or panic); a simulated schedule or fault would decide nothing about it that a plain input test does not.',
'C22':'src/pdb does not compile at this commit, so there is nothing that could be run under a simulator.',
'C23':'The cluster, its transport and its consensus exist only in the design document: src/main/poodle.go is empty of them, so no node can be simulated without writing the protocol ourselves. The consensus-time values it would use are decided by C13, the records and keys by C10 and C11.',
'C24':'Pure functions of their input with no schedule, fault, clock, randomness or stored state: simulation with fault injection has nothing to vary. (Only the hash functions\' use inside the containers is exercised, by C14 and C17.)',
}
NOTE={
'default':'Seeded search over simulated runs of the real code: evidence of absence on what was sampled, not a proof. Trusts the disk, process and scheduler model of the simulator (DESIGN.md), the source rewriting that puts it under the code, and the Go standard library.',
'C14':'As the others; iteration over the hash map and set is a listed known finding (it yields nothing), all other operations are decided.',
}
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m=dict(version=1,setup_cmd='./check setup',checks=[],not_applicable=[],
 notes='No hooks in /repo: the simulator is put under the code by rewriting a copy of its sources (imports of os, ioutil, rand, time, sync, ... and a yield before each statement), see DESIGN.md. Replay a violation with: ./check replay FILE -v')
for p in props:
    if p in have:
        m['checks'].append(dict(property=p,quick_cmd='./check %s quick'%p,thorough_cmd='./check %s thorough'%p,
          evidence_file='evidence/%s.json'%p,technique='deterministic simulation with fault injection (seeded search over schedules and fault sequences)',
          level='exploration',level_note=NOTE.get(p,NOTE['default'])))
    else:
        m['not_applicable'].append(dict(property=p,reason=NA.get(p,'Not built yet.')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
print('claimed',len(m['checks']),'not',[x['property'] for x in m['not_applicable']])
