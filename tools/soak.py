#!/usr/bin/env python3
"""soak.py <key> <schemas> [runs]: random schemas under every generator, any disagreement shown

A key /regex takes the matching schemas of the catalogue instead."""
import json
import os
import re
import random
import shutil
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
sys.dont_write_bytecode = True
import build
import catalogue
import drive
import dsl
import gen
import mc
import randgen
import tlc
from plans import Mismatch

key, n = sys.argv[1], int(sys.argv[2])
runs = int(sys.argv[3]) if len(sys.argv) > 3 else 12
scratch = tempfile.mkdtemp(prefix='soak_')
t0 = time.time()
try:
    if key.startswith('/'):
        recs = [r for r, _ in catalogue.ALL if re.search(key[1:], r.name)]
    else:
        recs = [r for r, _ in randgen.make(key, n)]
    include = os.path.join(build.REPO, 'include')
    while True:
        try:
            h = build.Harness(scratch, 'soak', include, recs, kinds=7).compile()
            break
        except build.Rejected as e:
            bad = dict(e.names)
            for k, v in bad.items():
                print('REJECTED', k, v[:300])
            recs = [r for r in recs if r.name not in bad]
    dsl.SIZES.update(h.sizes())
    print('built %.0f' % (time.time() - t0))
    rng = random.Random(key)
    ss = []
    for i in range(len(recs)):
        for g in (gen.write_read, gen.stale_write, gen.read_bytes, gen.read_back, gen.refused_write, gen.lengths):
            for _ in range(runs):
                ss.append(g(rng, recs, i, rng.choice([0, 1, 2])))
        ss += gen.cuts(rng, recs, i, rng.choice([0, 1, 2]))
        for _ in range(3):
            ss.append(gen.frames(rng, recs, [i] + rng.sample(range(len(recs)), 2), rng.choice([0, 1, 2])))
    specs = [r.spec() for r in recs]
    jobs = []
    for i, r in enumerate(recs):
        jobs += mc.jobs_for(i, r, ['write', 'near', 'read', 'cut', 'refuse', 'frames'], 30)
    beh, g, d = mc.run(scratch, specs, jobs)
    mcs = mc.sessions(beh, jobs, (0, 1, 2), rng)
    print('behaviours %d %.0f' % (len(mcs), time.time() - t0))
    both = ss + [s for s, _ in mcs]
    logs, crashes = drive.run(h.exe, scratch, both, recs)
    for i, why in crashes.items():
        print('CRASH', recs[both[i].calls[0][1]].name if i != 'exit' else '', why[:500])
    ok = sum(1 for l in logs.values() for c in l if c['ok'])
    tot = sum(len(l) for l in logs.values())
    acc, diff, g, d = tlc.validate(scratch, specs, [drive.trace_line(i, ss[i], logs[i]) for i in range(len(ss)) if i in logs])
    bad = 0
    for i in range(len(ss)):
        if i in logs and i not in acc:
            x = max(diff[i], key=lambda x: x['ci'])
            k = x['ci'] - 1
            m = Mismatch(recs[ss[i].calls[k][1]].name, ss[i], k, logs[i][k], x['d'], x['res'], 'trace')
            bad += 1
            if bad < 6:
                print('TRACE', m.describe()[:600])
                print(ss[i].text(0, recs)[:600])
    for k, (s, hists) in enumerate(mcs):
        i = len(ss) + k
        if i in logs:
            r = mc.compare(s, logs[i], hists)
            if r:
                bad += 1
                if bad < 6:
                    print('BEHAVIOUR', recs[s.calls[0][1]].name, r[0], r[1], str(r[2])[:400])
                    print(s.text(0, recs)[:600])
    print('key %s: %d schemas, %d sessions, %d/%d calls ok, %d bad, %.0f s' % (key, len(recs), len(both), ok, tot, bad, time.time() - t0))
finally:
    shutil.rmtree(scratch, ignore_errors=True)
