"""Running a recorded violation again, from its file under evidence/replay."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import build
import catalogue as C
import constant
import drive
import gen
import randgen
import static
import tlc


def show(label, x):
    print('%s: %s' % (label, json.dumps(x)[:3000]))


def session(d, scratch, include):
    by = {r.name: r for r, _ in C.ALL}
    by.update(C.KNOWN)
    for n in d['schemas']:
        if n.startswith('rg_'):
            # rg_<property>_<seed>_<round>_<number>
            p = n.split('_')
            from plans import PLANS
            by.update({r.name: r for r, _ in randgen.make(' '.join(p[1:4]), 40, PLANS[p[1]].schemas)})
    recs = [by[n] for n in d['schemas']]
    idx = {r.name: i for i, r in enumerate(recs)}
    calls = [tuple([c[0], idx[c[1]]] + c[2:]) for c in d['calls']]
    h = build.Harness(scratch, 'replay', include, recs, kinds=127).compile()
    import dsl
    dsl.SIZES.update(h.sizes())
    kinds = list(range(7)) if d.get('law') == 'same' else [d['stream']]
    rc = 0
    for k in kinds:
        s = gen.Session(calls, k, d['cap'], d['init'], d.get('tag', ''), d['rp'])
        logs, crashes = drive.run(h.exe, scratch, [s], recs)
        if crashes:
            print('crash: %s' % crashes)
            rc = 1
            continue
        for c in logs[0]:
            show('stream %d, %s' % (k, c['op']), c)
        acc, diff, _, _ = tlc.validate(scratch, [r.spec() for r in recs], [drive.trace_line(0, s, logs[0])])
        if 0 in acc:
            print('the specification allows this run')
        else:
            show('the specification differs', diff.get(0))
            rc = 1
    if d.get('constant'):
        lg, bad = constant.run(os.path.join(scratch, 'ce'), include, recs, [(0, calls[0], d['init'], d['cap'])])
        show('constant evaluation', lg or bad)
    for m in d.get('more') or []:
        show('constant evaluation (recorded)', m)
    return rc


def main(path):
    d = json.load(open(path))
    print(d['what'])
    include = d.get('headers') or os.path.join(build.REPO, 'include')
    scratch = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        if d['kind'] == 'session':
            return session(d, scratch, include)
        if d['kind'] == 'program':
            p = os.path.join(scratch, 'p.cpp')
            open(p, 'w').write(d['text'])
            print(d['text'])
            r = subprocess.run([build.CXX, '-std=c++23', '-w', '-fsyntax-only', '-I' + include, p], capture_output=True, text=True)
            print('accepted' if r.returncode == 0 else build.first_error(r.stderr))
            return 1
        show('recorded', d)
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
