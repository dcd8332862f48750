"""Inputs for the harness: structs, byte strings, sessions.

Nothing here is an oracle: a wrong guess only makes a less interesting input.
"""
import random
from dsl import *


RECORDS = 700      # records of a vector in big_sessions


def interesting(rng, f):
    """a value for a scalar field"""
    sz, bits = f.sz, 8 * f.sz
    lim = 1 << (8 * f.w)
    c = f.con
    if isinstance(c, Cmp) and rng.random() < .8:
        d = {'eq': [0], 'neq': [1, -1], 'lt': [-1, -2], 'gt': [1, 2], 'lte': [0, -1], 'gte': [0, 1]}[c.op]
        return host(c.v + rng.choice(d), sz)
    if isinstance(c, Any) and rng.random() < .8:
        return host(rng.choice(c.vs), sz)
    r = rng.random()
    if r < .25:
        x = rng.choice([0, 1, 2, 3, 7])
    elif r < .45:
        x = rng.randrange(lim)
    elif r < .6:
        x = rng.choice([lim - 1, lim >> 1, (lim >> 1) - 1, 0x80, 0xff, 0x100, 0x7f, 0x0102030405060708 % lim])
    elif r < .75 and sz > 1:
        x = int.from_bytes(bytes((0x11 * (i + 1)) & 255 for i in range(f.w)), 'little')
    else:
        x = rng.randrange(min(lim, 10))
    return host(x % lim, sz)


def leaf_bytes(rng, n, es):
    r = rng.random()
    if r < .5:
        return [(i + 1) % 256 for i in range(n * es)]
    if r < .7:
        return [rng.choice([0, 255]) for _ in range(n * es)]
    return [rng.randrange(256) for _ in range(n * es)]


def pick_count(rng, f=None, big=False):
    if big and rng.random() < .5:
        return rng.choice([254, 255, 256, 257, 127, 128])
    return rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 5])


def gen_value(rng, f, env, count=None, depth=0):
    if isinstance(f, Scalar):
        return interesting(rng, f)
    if isinstance(f, Arr):
        if isinstance(f.con, Cmp) and rng.random() < .7:
            v = list(f.con.v)
            if f.con.op != 'eq':
                v[rng.randrange(len(v))] ^= 1
            return v
        if isinstance(f.con, Any) and rng.random() < .7:
            return list(rng.choice(f.con.vs))
        b = leaf_bytes(rng, f.count(), f.es)
        if f.form in ('fstr', 'cstr') and rng.random() < .8:
            b[-1] = 0
        return b
    if isinstance(f, Vec):
        n = count if count is not None else pick_count(rng)
        if isinstance(f.con, Cmp) and f.con.op == 'eq' and rng.random() < .6:
            return list(f.con.v)
        return leaf_bytes(rng, n * (f.foot // f.es), f.es)
    if isinstance(f, Rec):
        return gen_struct(rng, f.rec, depth + 1)
    if isinstance(f, ARec):
        return [gen_struct(rng, f.rec, depth + 1) for _ in range(f.n)]
    if isinstance(f, VRec):
        n = count if count is not None else rng.choice([0, 1, 2, 3])
        return [gen_struct(rng, f.rec, depth + 1) for _ in range(min(n, 6))]
    raise TypeError(f)


def container_count(f, env, counts):
    """elements a container has to have to be consistent, None: free"""
    if not isinstance(f, Bounded):
        return None
    if isinstance(f.len, FromField):
        return counts.get(f.len.id)
    try:
        n = f.len.e.ev(env)
    except KeyError:
        return None
    return n if 0 <= n <= 300 else None


def aims(r):
    """numbers the callables of r compare its fields with"""
    out = {}

    def consts(e):
        if e.o == 'const':
            yield e.c
        for k in ('a', 'b'):
            x = e.kw.get(k)
            if isinstance(x, E):
                yield from consts(x)

    def put(e, vals):
        for i in e.deps():
            out.setdefault(i, []).extend(vals)
    for f in r.fields:
        if isinstance(f, Maybe):
            put(f.pred, list(consts(f.pred)))
        elif isinstance(f, Union) and isinstance(f.ded, Compute):
            put(f.ded.e, f.ded.vals)
        elif isinstance(f, Union) and isinstance(f.ded, Ladder):
            for p in f.ded.preds:
                put(p, list(consts(p)))
        for g in [f] + ([f.base] if isinstance(f, Maybe) else f.alts if isinstance(f, Union) else []):
            if isinstance(g, Bounded) and isinstance(g.len, FromFn):
                put(g.len.e, [0, 1, 2, 3])
    return out


NEAR = [0, 0, 0, 0, 0, 1, -1, 1 << 8, 1 << 16, 1 << 24, 1 << 32, 1 << 48, 1 << 63]


def gen_struct(rng, r, depth=0, big=False):
    """mostly consistent values for r, library-filled slots included"""
    counts, held = {}, {}
    lens = set()
    for f in r.fields:
        for g in ([f] + ([f.base] if isinstance(f, Maybe) else f.alts if isinstance(f, Union) else [])):
            if isinstance(g, Bounded) and isinstance(g.len, FromField):
                lens.add(g.len.id)
        if isinstance(f, Union) and isinstance(f.ded, Match):
            held[f.ded.id] = (rng.randrange(len(f.alts)), f)
    for i in lens:
        t = r.field(i)
        small = isinstance(t, Scalar) and t.w == 1
        counts[i] = pick_count(rng, big=big and small)
        if isinstance(t, Scalar) and isinstance(t.con, Cmp) and rng.random() < .7:
            d = {'eq': [0], 'neq': [1], 'lt': [-1, -2], 'gt': [1, 2], 'lte': [0, -1], 'gte': [0, 1]}[t.con.op]
            counts[i] = max(0, min(300, t.con.v + rng.choice(d)))
        elif isinstance(t, Scalar) and isinstance(t.con, Any) and rng.random() < .7:
            counts[i] = max(0, min(300, rng.choice(t.con.vs)))
        if i in held:
            counts[i] = held[i][1].ded.vals[held[i][0]]
    env, vals = {}, []
    aim = aims(r)
    for f in r.fields:
        if isinstance(f, Maybe):
            try:
                p = f.pred.ev(env)
            except KeyError:
                p = True
            v = [gen_value(rng, f.base, env, container_count(f.base, env, counts), depth)] if p else []
        elif isinstance(f, Union):
            d = f.ded
            if isinstance(d, Match):
                i = held[d.id][0] if d.id in held else rng.randrange(len(f.alts))
            else:
                try:
                    if isinstance(d, Compute):
                        x = d.e.ev(env)
                        i = d.vals.index(x) if x in d.vals else rng.randrange(len(f.alts))
                    else:
                        i = next((j for j, p in enumerate(d.preds) if p.ev(env)), rng.randrange(len(f.alts)))
                except KeyError:
                    i = rng.randrange(len(f.alts))
            a = f.alts[i]
            v = {'i': i + 1, 'v': gen_value(rng, a, env, container_count(a, env, counts), depth)}
        elif f.id in held and isinstance(f, Scalar):
            v = host(held[f.id][1].ded.vals[held[f.id][0]], f.sz)
        elif f.id in counts and isinstance(f, Scalar):
            v = host(counts[f.id], f.sz)
        elif f.id in r.frozen():
            v = host(f.con.v, f.sz) if isinstance(f, Scalar) else list(f.con.v)
        else:
            v = gen_value(rng, f, env, container_count(f, env, counts), depth)
            if aim.get(f.id) and isinstance(f, Scalar) and not isinstance(f.con, Cmp) and rng.random() < .4:
                v = host((rng.choice(aim[f.id]) + rng.choice(NEAR)) % (1 << (8 * f.w)), f.sz)
            # keep sources of computed sizes small
            if isinstance(f, Scalar) and any(isinstance(g, Bounded) and isinstance(g.len, FromFn)
                                             and f.id in g.len.e.deps() for g in r.fields) and rng.random() < .9:
                v = host(rng.choice([0, 1, 2, 3]), f.sz)
        v = settled(f, v)
        env[f.id] = v
        vals.append(v)
    return vals


def mutate_value(rng, f, v, depth=0):
    if isinstance(f, Scalar):
        r = rng.random()
        if r < .5:
            return interesting(rng, f)
        if r < .8:
            v = list(v)
            v[rng.randrange(len(v))] = rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])
            return v
        return host(integer(v, f.sg) + rng.choice([-1, 1]), f.sz)
    if isinstance(f, Arr):
        v = list(v)
        v[rng.randrange(len(v))] = rng.randrange(256)
        return v
    if isinstance(f, Vec):
        n = len(v) // f.foot
        r = rng.random()
        if r < .6:
            m = max(0, n + rng.choice([-1, 1, 2]))
            return (v + leaf_bytes(rng, 8, f.foot))[:m * f.foot] if m > n else v[:m * f.foot]
        if v:
            v = list(v)
            v[rng.randrange(len(v))] ^= 1 << rng.randrange(8)
        return v
    if isinstance(f, Rec):
        return mutate(rng, f.rec, v)
    if isinstance(f, (ARec, VRec)):
        v = list(v)
        if isinstance(f, VRec) and rng.random() < .5:
            if v and rng.random() < .5:
                return v[:-1]
            return v + [gen_struct(rng, f.rec, 1)]
        if v:
            j = rng.randrange(len(v))
            v[j] = mutate(rng, f.rec, v[j])
        return v
    if isinstance(f, Maybe):
        if rng.random() < .5:
            return [] if v else [gen_value(rng, f.base, {}, None)]
        return [mutate_value(rng, f.base, v[0])] if v else v
    if isinstance(f, Union):
        if rng.random() < .4:
            i = rng.randrange(len(f.alts))
            return {'i': i + 1, 'v': gen_value(rng, f.alts[i], {}, None)}
        return {'i': v['i'], 'v': mutate_value(rng, f.alts[v['i'] - 1], v['v'])}
    return v


def mutate(rng, r, vals):
    vals = list(vals)
    i = rng.randrange(len(vals))
    vals[i] = settled(r.fields[i], mutate_value(rng, r.fields[i], vals[i]))
    return vals


# ------------------------------------------------------------ bytes
def swap(v, es):
    return [b for i in range(0, len(v), es) for b in reversed(v[i:i + es])]


def enc_value(f, v, be):
    if isinstance(f, Scalar):
        b = v[:f.w]
        return b[::-1] if be else b
    if isinstance(f, (Arr, Vec)):
        return swap(v, f.es) if be else v
    if isinstance(f, Rec):
        return encode(f.rec, v, be)
    if isinstance(f, (ARec, VRec)):
        return [b for x in v for b in encode(f.rec, x, be)]
    if isinstance(f, Maybe):
        return enc_value(f.base, v[0], be) if v else []
    if isinstance(f, Union):
        return enc_value(f.alts[v['i'] - 1], v['v'], be)


def encode(r, vals, be, spans=None):
    out = []
    for f, v in zip(r.fields, vals):
        b = enc_value(f, v, be)
        if spans is not None:
            spans.append((f.id, len(out), len(b)))
        out += b
    return out


def mutate_bytes(rng, b):
    b = list(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        if r < .6 and b:
            b[rng.randrange(len(b))] = rng.choice([0, 1, 2, 3, 127, 128, 255, rng.randrange(256)])
        elif r < .7 and b:
            j = rng.randrange(len(b))
            b[j] ^= 1 << rng.randrange(8)
        elif r < .8:
            b = b[:rng.randrange(len(b) + 1)]
        elif r < .9:
            j = rng.randrange(len(b) + 1)
            b[j:j] = [rng.randrange(256) for _ in range(rng.choice([1, 2, 4]))]
        elif b:
            j = rng.randrange(len(b))
            del b[j:j + rng.choice([1, 2, 4])]
    return b


# ------------------------------------------------------------ sessions
class Session:
    """calls: ('R', schema, be) ('B', schema, be) ('W', schema, be, vals) ('M', schema, be, sbe, bytes, vals)"""

    def __init__(self, calls, kind=0, cap=-1, init=(), tag='', rp=0):
        self.calls, self.kind, self.cap, self.init, self.tag, self.rp = calls, kind, cap, list(init), tag, rp

    def text(self, id, schemas):
        o = ['S %d %d %d %d %d .%s' % (id, self.kind, self.tag == 'through', self.cap, self.rp, bytes(self.init).hex())]
        for c in self.calls:
            if c[0] in 'RB':
                o.append('%s %d %d' % (c[0], c[1], c[2]))
            elif c[0] == 'W':
                o.append('W %d %d %s' % (c[1], c[2], tokens(schemas[c[1]], c[3])))
            else:
                o.append('M %d %d %d .%s %s' % (c[1], c[2], c[3], bytes(c[4]).hex(), tokens(schemas[c[1]], c[5])))
        o.append('E')
        return '\n'.join(o) + '\n'


def write_read(rng, schemas, i, kind, mutated=.35, big=False):
    """write a struct, read it back"""
    r = schemas[i]
    v = gen_struct(rng, r, big=big)
    while rng.random() < mutated:
        v = mutate(rng, r, v)
    be = rng.random() < .5
    return Session([('W', i, be, v), ('R', i, be)], kind, tag='wr')


def stale_write(rng, schemas, i, kind):
    """write a struct whose library-filled slots hold other values"""
    r = schemas[i]
    sbe, be = rng.random() < .5, rng.random() < .5
    seed = encode(r, gen_struct(rng, r), sbe)
    v = gen_struct(rng, r)
    if rng.random() < .3:
        v = mutate(rng, r, v)
    return Session([('M', i, be, sbe, seed, v), ('R', i, be)], kind, tag='stale')


def refused_write(rng, schemas, i, kind):
    r = schemas[i]
    v = gen_struct(rng, r)
    if rng.random() < .2:
        v = mutate(rng, r, v)
    be = rng.random() < .5
    n = len(encode(r, v, be))
    pre = [rng.randrange(256) for _ in range(rng.choice([0, 0, 3]))]
    return Session([('W', i, be, v), ('W', i, be, v)] if rng.random() < .2 else [('W', i, be, v)], kind,
                   cap=len(pre) + rng.randrange(n + 1), init=pre, tag='refuse')


def read_bytes(rng, schemas, i, kind, mutated=.6):
    """read bytes; write what was read; read it again"""
    r = schemas[i]
    be = rng.random() < .5
    b = encode(r, gen_struct(rng, r), be)
    if rng.random() < mutated:
        b = mutate_bytes(rng, b)
    elif rng.random() < .1:
        b = [rng.randrange(256) for _ in range(rng.randrange(40))]
    tail = [rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 5]))]
    return Session([('R', i, be)], kind, init=b + tail, tag='read')


def read_back(rng, schemas, i, kind, mutated=.3):
    """read bytes, write the struct back"""
    s = read_bytes(rng, schemas, i, kind, mutated)
    s.calls = [s.calls[0], ('B', i, s.calls[0][2])]
    s.tag = 'back'
    return s


def big_sessions(rng, schemas, i, kinds, counts):
    """containers of unusual sizes: written, read back, cut short, refused"""
    r = schemas[i]
    out = []
    for n in counts:
        v = gen_struct(rng, r)
        for k, f in enumerate(r.fields):
            if isinstance(f, Vec) and rng.random() < .7:
                m = n if f.foot * n <= 140000 else 140000 // f.foot
                v[k] = leaf_bytes(rng, m * (f.foot // f.es), f.es)
            elif isinstance(f, VRec):
                v[k] = [gen_struct(rng, f.rec, 1) for _ in range(min(n, RECORDS))]
        be = rng.random() < .5
        kind = rng.choice(kinds)
        out.append(Session([('W', i, be, v), ('R', i, be)], kind, tag='wr'))
        b = encode(r, gen_struct(rng, r), be)
        cv = list(v)
        for k, f in enumerate(r.fields):      # consistent slots, for the reads
            if f.id in r.length_targets():
                c = next((len(v[j]) // g.foot if isinstance(g, Vec) else len(v[j])) for j, g in enumerate(r.fields)
                         if isinstance(g, Bounded) and isinstance(g.len, FromField) and g.len.id == f.id)
                cv[k] = host(c, f.sz)
        b = encode(r, cv, be)
        for cut in {len(b), len(b) - 1, rng.randrange(len(b) + 1), max(0, len(b) - rng.randrange(20))}:
            if len(b) < 20000 or cut >= len(b) - 1:
                out.append(Session([('R', i, be)], kind, init=b[:cut], tag='cut'))
        if len(b) < 20000:
            for cap in {len(b) - 1, rng.randrange(len(b) + 1)}:
                out.append(Session([('W', i, be, v)], kind, cap=max(cap, 0), tag='refuse'))
    return out


def cuts(rng, schemas, i, kind, limit=40):
    """the same input cut at every point"""
    r = schemas[i]
    be = rng.random() < .5
    b = encode(r, gen_struct(rng, r), be)
    if rng.random() < .2:
        b = mutate_bytes(rng, b)
    ns = list(range(len(b) + 1))
    if len(ns) > limit:
        ns = sorted(rng.sample(ns, limit))
    return [Session([('R', i, be)], kind, init=b[:n], tag='cut') for n in ns]


def frames(rng, schemas, ids, kind):
    """several structs of several schemas back to back on one stream"""
    calls = []
    n = rng.choice([2, 3, 4])
    for _ in range(n):
        i = rng.choice(ids)
        calls.append(('W', i, rng.random() < .5, gen_struct(rng, schemas[i])))
    ws = list(calls)
    if rng.random() < .3:
        # the same struct written again
        ws.append(ws[-1])
        calls = ws
    seq = ws + [('R', c[1], c[2]) for c in ws]
    if rng.random() < .3:
        # reads interleaved with the writes
        seq, pend = [], []
        for c in ws:
            seq.append(c)
            pend.append(('R', c[1], c[2]))
            if rng.random() < .6:
                seq.append(pend.pop(0))
        seq += pend
    tail = [rng.randrange(256) for _ in range(rng.choice([0, 2]))]
    return Session(seq, kind, init=[], tag='frames')


def through(rng, schemas, ids, kind):
    """casts that fail and casts that do not, one after another on one stream"""
    calls, init = [], []
    for _ in range(rng.choice([1, 2, 2])):
        i = rng.choice(ids)
        be = rng.random() < .5
        b = encode(schemas[i], gen_struct(rng, schemas[i]), be)
        init += mutate_bytes(rng, b) if rng.random() < .6 else b
        calls.append(('R', i, be))
    init += [rng.randrange(4) for _ in range(30)]
    for _ in range(rng.choice([2, 3])):
        i = rng.choice(ids)
        v = gen_struct(rng, schemas[i])
        while rng.random() < .5:
            v = mutate(rng, schemas[i], v)
        calls.insert(rng.randrange(len(calls) + 1), ('W', i, rng.random() < .5, v))
    return Session(calls, kind, init=init, tag='through')


def slots(r, vals):
    """every length slot in a struct: (values, index, slot, bytes per element, ceiling)"""
    for k, f in enumerate(r.fields):
        gs = [f.base] if isinstance(f, Maybe) else f.alts if isinstance(f, Union) else [f]
        for g in gs:
            if isinstance(g, Bounded):
                foot = g.foot if isinstance(g, Vec) else SIZES.get(g.rec.name, 64)
                ids = [g.len.id] if isinstance(g.len, FromField) else g.len.e.deps()
                for i in ids:
                    j = next((j for j, x in enumerate(r.fields) if x.id == i), None)
                    if j is not None and isinstance(r.fields[j], Scalar):
                        yield vals, j, r.fields[j], foot, g.bound_value()
        v = vals[k]
        if isinstance(f, Rec):
            yield from slots(f.rec, v)
        elif isinstance(f, (ARec, VRec)):
            for x in v:
                yield from slots(f.rec, x)
        elif isinstance(f, Maybe) and isinstance(f.base, Rec) and v:
            yield from slots(f.base.rec, v[0])
        elif isinstance(f, Union) and isinstance(f.alts[v['i'] - 1], Rec):
            yield from slots(f.alts[v['i'] - 1].rec, v['v'])


def lengths(rng, schemas, i, kind):
    """bytes whose lengths sit at and around the ceilings, or are absurd"""
    r = schemas[i]
    v = gen_struct(rng, r)
    be = rng.random() < .5
    ss = list(slots(r, v))
    room = 0
    if ss:
        vals, j, f, foot, bound = rng.choice(ss)
        top = bound // foot
        lim = 1 << (8 * f.w)
        n = rng.choice([top, top, top + 1, top + 1, top - 1, top + 2, 2 * top, lim - 1, lim // 2, lim // 2 - 1, lim // 2 + 1,
                        1 << 31, (1 << 32) + 1, (1 << 61) + 1, (1 << 63) // foot, ((1 << 64) // foot + 1), ((1 << 64) + bound) // foot,
                        ((1 << 32) + bound) // foot, rng.randrange(lim)])
        n = max(0, n) % lim
        vals[j] = host(n, f.sz)
        if n * foot <= 2000:
            room = n * foot
    b = encode(r, v, be) + [(7 * k) % 256 for k in range(rng.choice([0, room, room + 8, 40]))]
    return Session([('R', i, be)], kind, init=b, tag='read')


# ------------------------------------------------------------ bulk
BULK = (1023, 1024, 1025, 4095, 4096, 4097, 5000, 8193, 12289, 20000)
VAST = (65535, 65536, 65537, 70000, 131073)


def bulk_struct(rng, r, n):
    """a consistent struct whose container holds n elements"""
    if r.name == 'bk_comp':
        k = rng.randrange(n + 1)
        return [host(k, 2), host(n - k, 2), bulk_recs(rng, r.fields[2].rec, n), host(rng.randrange(256), 1)]
    if r.name == 'bk_comp_vec':
        return [host(n, 4), leaf_bytes(rng, n, 4), leaf_bytes(rng, n + 1, 1), host(7, 1)]
    if r.name == 'bk_nested':
        q = r.fields[1].rec
        return [host(rng.randrange(65536), 2), [host(n, 2), bulk_recs(rng, q.fields[1].rec, n), host(3, 1)], host(0x0102, 2)]
    if r.name == 'bk_maybe':
        return [host(1, 1), host(n, 2), [bulk_recs(rng, r.fields[2].base.rec, n)], host(0x0102, 2)]
    if r.name == 'bk_opt_vec':
        one = rng.random() < .5
        return [host(1 if one else 2, 1), host(n, 4), [leaf_bytes(rng, n, 2)] if one else [], [] if one else [leaf_bytes(rng, n, 1)], host(5, 1)]
    if r.name == 'bk_union':
        i = rng.choice([1, 1, 2, 3])
        v = bulk_recs(rng, r.fields[2].alts[0].rec, n) if i == 1 else leaf_bytes(rng, n, 2 if i == 2 else 1)
        return [host(n, 4), host(i, 1), {'i': i, 'v': v}, host(9, 1)]
    if r.name in ('bk_vec', 'bk_str'):
        return [host(n, 4), leaf_bytes(rng, n, r.fields[1].es), host(rng.randrange(256), 1)]
    return [host(n, r.fields[0].sz), bulk_recs(rng, r.fields[1].rec, n), host(rng.randrange(256), 1)]


def bulk_recs(rng, r, n):
    few = [gen_struct(rng, r, 1) for _ in range(40)]
    out = [few[(k * k + k // 7) % 40] for k in range(n)]
    for k in (0, n - 1, min(4095, n - 1), min(4096, n - 1)):
        out[k] = gen_struct(rng, r, 1)
    return out


def bulk_sessions(rng, schemas, i, kinds, counts, what):
    """-> [(law, session, want)]"""
    r = schemas[i]
    out = []
    for n in counts:
        v = bulk_struct(rng, r, n)
        for be in ((False, True) if 'decode' in what else (rng.random() < .5,)):
            kind = rng.choice(kinds)
            b = encode(r, v, be)
            if 'layout' in what:
                out.append(('layout', Session([('W', i, be, v)], kind), []))
            if 'roundtrip' in what:
                out.append(('roundtrip', Session([('W', i, be, v), ('R', i, be)], kind), []))
            if 'refuse' in what:
                for cap in {len(b) - 1, rng.randrange(len(b)), len(b)}:
                    out.append(('layout', Session([('W', i, be, v)], kind, cap=cap), []))
            if 'decode' in what:
                out.append(('decode', Session([('R', i, be)], kind, init=b + [1] * rng.choice([0, 3])), v))
            if 'cut' in what:
                for c in {len(b) - 1, len(b) - 2, rng.randrange(len(b)), rng.randrange(len(b))}:
                    out.append(('decode', Session([('R', i, be)], kind, init=b[:c]), v))
            if 'frames' in what:
                w = bulk_struct(rng, r, rng.choice([3, 4097]))
                out.append(('frames', Session([('W', i, be, v), ('W', i, not be, w), ('R', i, be), ('R', i, not be)], kind), 2))
            if 'same' in what:
                out.append(('same', Session([('W', i, be, v), ('R', i, be)], kind), []))
    return out
