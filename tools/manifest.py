#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl. Properties listed in NA are not claimed.
import json,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props=[json.loads(l) for l in open('properties.jsonl')]
NA=json.load(open('tools/not_applicable.json'))
NOTE=json.load(open('tools/level_notes.json'))
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append(dict(property=i,quick_cmd='./check %s quick'%i,thorough_cmd='./check %s thorough'%i,
        evidence_file='evidence/%s.json'%i,
        technique='deterministic simulation with fault injection: seeded search over schedules and fault sequences',
        level='exploration',level_note=NOTE.get(i,NOTE['default'])))
m=dict(version=1,setup_cmd='bash sim/build/build.sh',checks=checks,
  not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
  notes='No hooks in /repo: all seams (os files, clock, randomness, map order, SQLite VFS, process exit) are put in place by a Go build overlay over the standard library, go-sqlite3 and fftw (sim/build/mkoverlay.py); gopf itself is compiled unmodified from /repo.')
json.dump(m,open('MANIFEST.json','w'),indent=1)
open('MANIFEST.json','a').write('\n')
