#!/usr/bin/env python3
"""Does the specification constrain what is recorded?  Takes runs of the real
code, corrupts one observation of one call, and counts how many of the
corrupted logs Trace.tla and Laws.tla still accept."""
import copy
import json
import os
import random
import shutil
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'lib'), ROOT]
sys.dont_write_bytecode = True
import build                    # noqa: E402
import catalogue as C           # noqa: E402
import check                    # noqa: E402
import drive                    # noqa: E402
import dsl                      # noqa: E402
import gen                      # noqa: E402
import tlc                      # noqa: E402

REASONS = ['buffer_exhaustion', 'validation_failure', 'type_deduction_failure', 'found_contradicting_length', 'excessive_length']


def flip(rng, v):
    """v with one byte of one value changed, or None"""
    if isinstance(v, dict):
        x = flip(rng, v['v'])
        return None if x is None else {'i': v['i'], 'v': x}
    if isinstance(v, int):
        return v ^ (1 << rng.randrange(8))
    idx = list(range(len(v)))
    rng.shuffle(idx)
    for i in idx:
        x = flip(rng, v[i])
        if x is not None:
            return v[:i] + [x] + v[i + 1:]
    return None


def corrupt(rng, c, r):
    """-> (what, call)"""
    d = copy.deepcopy(c)
    opts = []
    ids = [f.id for f in r.fields]
    if c['ok']:
        opts.append('verdict')
        if c['op'] == 'R':
            opts += ['post', 'rp', 'post']
        elif c['app']:
            opts += ['app', 'shorter', 'longer']
    else:
        opts += ['verdict', 'reason']
        if len(ids) > 1:
            opts.append('at')
        if c['op'] == 'W':
            opts += ['longer']
    if c['op'] == 'W':
        opts.append('mutated')
    w = rng.choice(opts)
    if w == 'verdict':
        d['ok'] = not c['ok']
        if c['ok']:
            d.update(r=rng.choice(REASONS), at=rng.choice(ids))
        else:
            d.update(r='', at='')
    elif w == 'post' or w == 'mutated':
        x = flip(rng, c['post'])
        if x is None:
            return None
        d['post'] = x
    elif w == 'rp':
        d['rp'] += rng.choice([-1, 1])
    elif w == 'app':
        d['app'][rng.randrange(len(d['app']))] ^= 1 << rng.randrange(8)
    elif w == 'shorter':
        d['app'].pop(rng.randrange(len(d['app'])))
    elif w == 'longer':
        d['app'].append(rng.randrange(256))
    elif w == 'reason':
        d['r'] = rng.choice([x for x in REASONS if x != c['r']])
    elif w == 'at':
        d['at'] = rng.choice([x for x in ids if x != c['at']])
    return w, d


def main():
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    scratch = tempfile.mkdtemp(prefix='verif_binding_')
    try:
        recs = [r for r, t in C.ALL][int(sys.argv[1]) if len(sys.argv) > 1 else 0::4]
        h = build.Harness(scratch, 'h', os.path.join(build.REPO, 'include'), recs, kinds=3).compile()
        dsl.SIZES.update(h.sizes())
        specs = [r.spec() for r in recs]
        ss = []
        for i in range(len(recs)):
            for _ in range(12):
                ss += [gen.write_read(rng, recs, i, 0), gen.read_bytes(rng, recs, i, 1), gen.stale_write(rng, recs, i, 1), gen.refused_write(rng, recs, i, 0)]
        logs, crashes = drive.run(h.exe, scratch, ss, recs)
        lines, what = [], []
        for i, s in enumerate(ss):
            n = rng.randrange(len(logs[i]))
            x = corrupt(rng, logs[i][n], recs[s.calls[n][1]])
            if x is None:
                continue
            lg = logs[i][:n] + [x[1]]
            s2 = gen.Session(s.calls[:n + 1], s.kind, s.cap, s.init, s.tag, s.rp)
            lines.append(drive.trace_line(len(what), s2, lg))
            what.append((x[0], logs[i][n]['op'], i))
        acc, diff, _, _ = tlc.validate(scratch, specs, lines)
        tot, missed = {}, {}
        for k, (w, op, i) in enumerate(what):
            tot[op + ' ' + w] = tot.get(op + ' ' + w, 0) + 1
            if k in acc:
                missed.setdefault(op + ' ' + w, []).append((k, i))
        for k in sorted(tot):
            print('%-12s corrupted %5d  accepted %d' % (k, tot[k], len(missed.get(k, []))))
        for k in missed:
            for n, i in missed[k][:2]:
                print('  accepted:', k, recs[ss[i].calls[0][1]].name, json.dumps(logs[i])[:400])
                print('            ', lines[n][:400])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    main()
