"""Jobs for spec/MC.tla and the replay of the behaviours it prints."""
import itertools
import json
import os
import random
from build import JOBS, ToolError
import tlc
import gen
from dsl import *

MC_CFG = open(os.path.join(tlc.SPEC, 'MC.cfg')).read()


def scalar_cands(f, r=None, n=3):
    """a few host values of a scalar: around its constraint, its width, its uses"""
    lim = 1 << (8 * f.w)
    xs = []
    c = f.con
    if isinstance(c, Cmp):
        xs += [c.v, c.v + 1, c.v - 1]
    elif isinstance(c, Any):
        xs += list(c.vs) + [max(c.vs) + 1]
    xs += [1, 0, 2, 0x0102 % lim, lim - 1, 3]
    if f.w < f.sz:
        xs.insert(2, lim)
    out = []
    for x in xs:
        h = host(x, f.sz)
        if h not in out:
            out.append(h)
    return out[:n]


def pattern(n, k=1):
    return [(k * (i + 1)) % 256 for i in range(n)]


def cands(f, r, n, depth=0):
    if isinstance(f, (Scalar, Arr)) and f.T == 'bool':
        m = f.sz if isinstance(f, Scalar) else f.count()
        return [[1] * m, [0] * m, [i % 2 for i in range(m)]][:n if isinstance(f, Arr) else 2]
    if isinstance(f, Scalar):
        return scalar_cands(f, r, n)
    if isinstance(f, Arr):
        m = f.count() * f.es
        out = []
        if isinstance(f.con, Cmp):
            out += [list(f.con.v), list(f.con.v[:-1]) + [f.con.v[-1] ^ 1]]
        if isinstance(f.con, Any):
            out += [list(f.con.vs[0])]
        out += [pattern(m), [255] * m, [0] * m]
        return out[:max(2, n - 1)]
    if isinstance(f, Vec):
        out = [pattern(f.foot), pattern(2 * f.foot), [], pattern(3 * f.foot, 7)]
        if isinstance(f.con, Cmp):
            out.insert(0, list(f.con.v))
        return out[:max(2, n)]
    if isinstance(f, Rec):
        return structs(f.rec, max(2, n - 1), 4, depth + 1)
    if isinstance(f, ARec):
        ss = structs(f.rec, 2, 4, depth + 1)
        return [[ss[(i + k) % len(ss)] for i in range(f.n)] for k in range(min(2, len(ss)))]
    if isinstance(f, VRec):
        ss = structs(f.rec, 2, 4, depth + 1)
        return ([[ss[0]], [], [ss[0], ss[-1]]])[:max(2, n)]
    if isinstance(f, Maybe):
        return [[]] + [[v] for v in cands(f.base, r, max(1, n - 1), depth)]
    if isinstance(f, Union):
        per = 2 if len(f.alts) < 4 and n > 2 else 1
        return [{'i': i + 1, 'v': v} for i, a in enumerate(f.alts) for v in cands(a, r, per, depth)[:per]]
    raise TypeError(f)


def uses(r, id):
    """values of other fields' guards that make sibling id matter"""
    out = []

    def consts(e):
        if e.o == 'const':
            yield e.c
        for k in ('a', 'b'):
            x = e.kw.get(k)
            if isinstance(x, E):
                yield from consts(x)
    for f in r.fields:
        es = []
        if isinstance(f, Maybe):
            es.append(f.pred)
        if isinstance(f, Union):
            if isinstance(f.ded, Ladder):
                es += f.ded.preds
            elif isinstance(f.ded, Compute):
                if id in f.ded.e.deps():
                    out += f.ded.vals
        for e in es:
            if id in e.deps():
                for c in consts(e):
                    out += [c, c + 1]
    return out


def field_cands(r, n, depth=0):
    """candidate values per field; slots the library fills get one value"""
    out = []
    auto = r.length_targets() | r.discriminants() | r.frozen()
    lens = set()
    for f in r.fields:
        for g in ([f.base] if isinstance(f, Maybe) else f.alts if isinstance(f, Union) else []):
            if isinstance(g, Bounded) and isinstance(g.len, FromField):
                lens.add(g.len.id)
    for f in r.fields:
        if f.id in auto and isinstance(f, Scalar):
            out.append([[0] * f.sz])
            continue
        if f.id in auto:
            out.append([[0] * (f.count() * f.es)])
            continue
        c = cands(f, r, n, depth)
        if isinstance(f, Scalar):
            u = [settled(f, host(x, f.sz)) for x in uses(r, f.id)]
            if f.id in lens:
                u += [settled(f, host(x, f.sz)) for x in (1, 0, 2)]
            keep = [x for i, x in enumerate(u) if x not in u[:i]][:max(n, 4)]
            if keep:
                c = keep + [x for x in c if x not in keep][:1]
            else:
                # nothing depends on it: fewer values do
                c = c[:n if not isinstance(f.con, NoCon) else max(1, n - 1)]
        out.append(c)
    return out


def product_size(cs):
    p = 1
    for c in cs:
        p *= len(c)
    return p


def shrink(cs, limit):
    """drop candidates, from the longest lists, until the product fits"""
    cs = [list(c) for c in cs]
    while product_size(cs) > limit:
        i = max(range(len(cs)), key=lambda i: len(cs[i]))
        if len(cs[i]) == 1:
            break
        cs[i].pop()
    return cs


def structs(r, n, limit, depth=0):
    cs = shrink(field_cands(r, n, depth), limit)
    return [list(x) for x in itertools.product(*cs)]


def alphabet(r, size=4):
    """bytes that matter to the schema"""
    xs = [0, 1, 2]
    for f in r.walk():
        c = f.con
        if isinstance(c, Cmp) and isinstance(c.v, int):
            xs += host(c.v, 9)[:2]
        elif isinstance(c, Cmp):
            xs += list(c.v)[:2]
        if isinstance(f, Union) and not isinstance(f.ded, Ladder):
            xs += [v & 255 for v in f.ded.vals[:3]]
    for f in r.fields:
        xs += [x & 255 for x in uses(r, f.id)[:2]]
    xs += [255]
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return (out[:size - 1] + [255])[:size] if 255 not in out[:size] else out[:size]


def neighbours(r, limit, be, seed=7):
    """encodings of consistent structs, and each with one byte replaced by
    each byte that matters, one byte missing, one more"""
    rng = random.Random('%s %d' % (r.name, seed))
    a = alphabet(r, 5)
    out = []
    seen = set()

    def put(b):
        if bytes(b) not in seen:
            seen.add(bytes(b))
            out.append(list(b))
    while len(out) < limit:
        n = len(out)
        b = gen.encode(r, gen.gen_struct(rng, r), be)
        if len(b) > 200:
            if rng.random() < .1:
                break
            continue
        put(b)
        for p in range(len(b)):
            for x in a:
                put(b[:p] + [x] + b[p + 1:])
        put(b[:-1])
        put(b + [5])
        if len(out) == n and rng.random() < .05:
            break
    return out[:limit]


def jobs_for(i, r, kinds, budget, emit=True):
    """budget: about how many initial states per job"""
    out = []
    span = 1 + len(gen.encode(r, [c[0] for c in shrink(field_cands(r, 2), 1)], False)) // 16
    budget = max(8, budget // span ** 2)
    if span > 8:
        kinds = [k for k in kinds if k in ('write', 'frames', 'near')]      # too long to enumerate their bytes
    for k in kinds:
        base = {'s': [i], 'kind': k, 'ord': [True, False], 'cand': [], 'caps': [], 'init': [], 'alpha': [], 'min': 0,
                'max': 0, 'bytes': [], 'emit': emit}
        if k == 'read':
            a = alphabet(r, 4 if budget < 2000 else 6)
            m = 1
            while 2 * len(a) ** (m + 1) <= 2 * budget and m < 12:
                m += 1
            base.update(alpha=a, max=m)
        elif k == 'near':
            base.update(kind='read', bytes=neighbours(r, budget, i % 2 == 0), ord=[i % 2 == 0])
            if not base['bytes']:
                continue
        elif k in ('write', 'cut'):
            cs = shrink(field_cands(r, 3), max(2, budget // (2 if k == 'write' else 8)))
            base.update(cand=cs)
            if k == 'cut':
                base.update(ord=[True] if i % 2 else [False])
        elif k == 'refuse':
            cs = shrink(field_cands(r, 2), max(2, budget // 30))
            size = max((len(gen.encode(r, [c[0] for c in cs], False)) for _ in (1,)), default=4)
            pre = [170, 187]
            base.update(kind='write', cand=cs, init=pre, caps=list(range(len(pre), len(pre) + min(size + 6, 40))),
                        ord=[i % 2 == 0])
        elif k == 'frames':
            cs = shrink(field_cands(r, 2), max(2, min(16, int((budget / 4) ** .5))))
            base.update(s=[i, i], cand=cs)
        out.append(base)
    return out


def run(dir, specs, jobs, tag='', heap='3g', n=None, timeout=800):
    """-> behaviours, states, distinct"""
    for k, j in enumerate(jobs):
        j['id'] = k
    sp = os.path.join(dir, tag + 'mc_schemas.json')
    with open(sp, 'w') as f:
        json.dump(specs, f)

    def cost(j):
        if j['bytes']:
            return len(j['bytes'])
        if j['kind'] == 'read':
            return sum(len(j['alpha']) ** m for m in range(j['max'] + 1)) * len(j['ord'])
        return (product_size(j['cand']) * len(j['ord'])) ** len(j['s']) * max(1, len(j['caps'])) * \
            (8 if j['kind'] == 'cut' else 1)
    n = n or min(JOBS, max(1, len(jobs)))
    parts = [[0, []] for _ in range(n)]
    for j in sorted(jobs, key=lambda j: -cost(j)):
        p = min(parts, key=lambda p: p[0])
        p[0] += cost(j)
        p[1].append(j)
    envs = []
    for k, (_, js) in enumerate(parts):
        if js:
            p = os.path.join(dir, '%sjobs%d.ndjson' % (tag, k))
            with open(p, 'w') as f:
                f.write('\n'.join(json.dumps(j) for j in js) + '\n')
            envs.append({'SCHEMAS': sp, 'JOBS': p})
    out, gen_, dis, texts = tlc.sharded(dir, 'MC', MC_CFG, envs, heap=heap, tag=tag, timeout=timeout)
    beh = [json.loads(x[8:]) for x in out if x.startswith('BEHAVES ')]
    for e in envs:
        os.unlink(e['JOBS'])
    os.unlink(sp)
    return beh, gen_, dis


def sessions(beh, jobs, kinds, rng):
    """behaviours -> [(session, list of admissible histories)]: behaviours
    that start alike differ only where the specification leaves a choice"""
    by = {}
    for b in beh:
        j = jobs[b['job']]
        key = (b['job'], json.dumps([b['ord'], b['inp'], b['cap'], b['init']]))
        by.setdefault(key, []).append(b)
    out = []
    for (k, _), bs in sorted(by.items()):
        b, j = bs[0], jobs[k]
        s = j['s']
        kind = rng.choice(kinds)
        if j['kind'] == 'read':
            calls = [('R', s[0], b['ord'][0]), ('B', s[0], b['ord'][0]), ('R', s[0], b['ord'][0])]
        elif j['kind'] == 'write':
            calls = [('W', s[0], b['ord'][0], b['inp'][0]), ('R', s[0], b['ord'][0])]
        elif j['kind'] == 'cut':
            if len(b['hist']) < 2:
                continue
            calls = [('R', s[0], b['ord'][0])]
        else:
            calls = [('W', s[n], b['ord'][n], b['inp'][n]) for n in range(len(s))] + \
                    [('R', s[n], b['ord'][n]) for n in range(len(s))]
        ss = gen.Session(calls, kind, b['cap'], b['init'], tag='mc_' + j['kind'], rp=len(j['init']))
        hs = [x['hist'][1:] if j['kind'] == 'cut' else x['hist'] for x in bs]
        out.append((ss, hs))
    return out


def differs(c, call, h):
    """in which aspects a logged call differs from the outcome h expected"""
    ok = h['t'] == 'ok'
    d = []
    if c['exc']:
        d.append('exception')
    if c['ok'] != ok:
        d.append('verdict')
    elif not ok:
        if c['r'] != h['r']:
            d.append('reason')
        if c['at'] != h['at']:
            d.append('field')
    if c['app'] != h['app']:
        d.append('bytes')
    if c['op'] == 'R':
        if c['ok'] == ok and (ok or h['r'] in ('excessive_length', 'type_deduction_failure')) and c['rp'] != h['rp']:
            d.append('position')
        if c['ok'] and ok and c['post'] != h['v']:
            d.append('values')
    else:
        if c['ok'] and c['rp'] != h['rp']:
            d.append('position')
        if c['pre'] != c['post']:
            d.append('mutated')
    return d


def compare(session, calls, hists):
    """None, or (index of the call, aspects, outcome expected)"""
    best = None
    for hs in hists:
        bad = None
        for n, h in enumerate(hs):
            if n >= len(calls):
                bad = (n - 1, ['verdict'], h)
                break
            d = differs(calls[n], session.calls[n], h)
            if d:
                bad = (n, d, h)
                break
        if bad is None:
            if len(calls) > len(hs):
                bad = (len(hs) - 1, ['verdict'], hs[-1])
            else:
                return None
        if best is None or bad[0] > best[0]:
            best = bad
    return best
