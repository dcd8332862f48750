"""Random well-formed schemas, the same for the same key."""
import random
from dsl import *

IDS = ['a', 'b', 'c', 'x', 'y', 'n', 'm', 'len', 'len2', 'kind', 'kind_', 'tag', 'f', 'fl', 'flags', 'data', 'data1', 'data10', 'Z', '_q',
       'hdr', 'hd', 'body', 'crc', 'pad', 'w', 'ww', 'www', 'name', 'version_of_the_thing', 'version_of_the_thinh', 'k9', 'k8']
INTS = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64']
LENS = ['u8', 'u8', 'u16', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32']


class Maker:
    def __init__(self, rng, prefix):
        self.rng, self.prefix, self.n = rng, prefix, 0

    # -------------------------------------------------------- leaves
    def integer(self, f):
        """a value the field can hold and a stream can carry"""
        bits = 8 * f.w
        if f.sg and f.w == f.sz:
            lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        else:
            lo, hi = 0, (1 << bits) - 1
        c = [1, 2, 3, 5, 7, 100, 127, 128, 200, 255, 256, 257, 300, 0x0102, 0xff00, 0x010203, 70000, 2 ** 31 + 5, 2 ** 40 + 3]
        if lo < 0:
            c += [-1, -2, -5, -128, -300, -70000]
        c = [x for x in c if lo <= x <= hi]
        return self.rng.choice(c)

    def scalar(self, id, con=True, types=INTS, magic=True):
        rng = self.rng
        if types is INTS and rng.random() < .08:
            return Scalar(id, rng.choice(['bool', 'bool', 'char8_t', 'char16_t', 'char32_t', 'wchar_t']), explicit=rng.random() < .7)
        T = rng.choice(types)
        sz = size_of(T)
        w = rng.randrange(1, sz + 1) if sz > 1 and rng.random() < .25 else None
        f = Scalar(id, T, w, explicit=rng.random() < .7)
        r = rng.random()
        if con and r < .45:
            if magic and r < .1:
                return Scalar(id, T, w, magic=self.integer(f))
            if r < .28:
                ops = ['neq', 'lt', 'gt', 'lte', 'gte'] + (['eq'] if magic else [])
                c = Cmp(rng.choice(ops), self.integer(f))
            elif r < .38:
                c = Any(sorted({self.integer(f) for _ in range(rng.choice([1, 2, 3, 5]))}))
            else:
                c = Fn(rng.choice([lambda: ne(mod(num('$'), rng.choice([2, 3, 5])), 1), lambda: lt(num('$'), 300), lambda: gt(num('$'), 1)])())
            f.con = c
            if w is not None and rng.random() < .5:
                f.opt_order = ['con', 'size']
        return f

    def array(self, id, con=True, alt=False):
        rng = self.rng
        r = rng.random()
        if r < .2:
            f = Arr(id, 'char', rng.randrange(1, 6), form='fstr')
            if con and rng.random() < .3:
                f.con = rng.choice([lambda: Cmp('eq', self.text(f.n)), lambda: Cmp('neq', self.text(f.n)), lambda: Any([self.text(f.n), self.text(f.n, 1)])])()
            return f
        if not alt and r < .3:
            return Arr(id, 'char', rng.randrange(1, 5), form='cstr')
        if not alt and r < .4:
            return Arr(id, rng.choice(['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i64', 'f32', 'f64', 'char']), rng.randrange(1, 5), form='carr')
        if con and r < .48:
            n = rng.randrange(1, 5)
            return Arr(id, 'u8', n, form='magicbytes', magic=[rng.randrange(256) for _ in range(n)])
        if con and not alt and r < .54:
            n = rng.randrange(1, 6)
            return Arr(id, 'char', n, form='magicstr', magic=self.text(n))
        inner = () if alt or rng.random() < .7 else tuple(rng.randrange(1, 4) for _ in range(rng.choice([1, 1, 2])))
        T = rng.choice(['u8', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'f32', 'f64', 'bool', 'char', 'char16_t', 'wchar_t'])
        f = Arr(id, T, rng.randrange(1, 5), inner=inner)
        if con and T == 'u8' and not inner and rng.random() < .35:
            v = [rng.randrange(4) for _ in range(f.n)]
            f.con = rng.choice([lambda: Cmp(rng.choice(['eq', 'neq', 'lt', 'gt']), v), lambda: Fn(lt(byt('$', f.n - 1), 100)), lambda: Any([v, [9] * f.n])])()
        return f

    def text(self, n, k=0):
        return [65 + (i + k) % 26 for i in range(n)] + [0]

    def vec(self, id, length, con=True, small=False):
        rng = self.rng
        T = rng.choice(['u8', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'f32', 'f64', 'char', 'char16_t'])
        form, inner = 'vec', ()
        if rng.random() < .3:
            T, form = 'char', 'str'
        elif id and rng.random() < .15:
            inner = (rng.randrange(1, 4),)
        f = Vec(id, T, length, form=form, inner=inner)
        if rng.random() < .2:
            f.bound = rng.choice([0, 3, 8, 17, 40, 100])
        if con and rng.random() < .2:
            f.con = rng.choice([lambda: Fn(ne(cnt('$', f.foot), rng.randrange(4))), lambda: Fn(ne(mod(cnt('$', f.foot), 2), 1))])()
        self.shuffle(f)
        return f

    def shuffle(self, f):
        if self.rng.random() < .4:
            o = ['len', 'bound', 'con']
            self.rng.shuffle(o)
            f.opt_order = o

    def vrec(self, id, length, depth):
        rng = self.rng
        f = VRec(id, self.record(depth + 1), length, via_vec=rng.random() < .2)
        if rng.random() < .2:
            f.bound = rng.choice([40, 100, 200, 700])
        if rng.random() < .12:
            f.con = Fn(ne(cnt2('$'), rng.randrange(3)))
        self.shuffle(f)
        return f

    def rec_con(self, rec):
        """a constraint over a plain scalar of a nested record"""
        ids = [i for i, f in enumerate(rec.fields) if f.id in self.plain_ids(rec)]
        if not ids:
            return None
        k = self.rng.choice(ids)
        return Fn(self.rng.choice([lt, ne, gt])(sub('$', k + 1, rec.fields[k].id), self.rng.choice([1, 3, 9, 200])))

    @staticmethod
    def plain_ids(rec):
        lens = set()
        for f in rec.fields:
            for g in ([f] + ([f.base] if isinstance(f, Maybe) else f.alts if isinstance(f, Union) else [])):
                if isinstance(g, Bounded) and isinstance(g.len, FromField):
                    lens.add(g.len.id)
        return [f.id for f in rec.fields if isinstance(f, Scalar) and f.id not in lens and f.id not in rec.discriminants()
                and f.id not in rec.frozen()]

    # -------------------------------------------------------- expressions
    def value(self, st):
        """something computed from an earlier field"""
        rng = self.rng
        c = [num(i) for i in st['plain'] + st['nums']]
        c += [num(i) for i in st['plain']]
        c += [cnt(f.id, f.foot) for f in st['vecs']] + [cnt2(i) for i in st['vrecs']]
        c += [onum(i) for i in st['optnum']] + [byt(f.id, rng.randrange(f.count())) for f in st['bytes']]
        c += [ix(i) for i in st['unions']] + [sub(i, k, n) for i, k, n in st['subs']]
        return rng.choice(c) if c else None

    def pred(self, st, plain=False, depth=0):
        rng = self.rng
        if plain:
            v = num(rng.choice(st['plain'])) if st['plain'] else None
        else:
            if st['opts'] and rng.random() < .15:
                p = has(rng.choice(st['opts']))
                return not_(p) if rng.random() < .3 else p
            v = self.value(st)
        if v is None:
            return None
        r = rng.random()
        if depth == 0 and r < .2:
            a, b = self.pred(st, plain, 1), self.pred(st, plain, 1)
            return rng.choice([and_, or_])(a, b)
        if r < .3:
            return not_(eq(v, rng.randrange(4)))
        if r < .4 and not plain:
            return lt(v, self.value(st))
        return rng.choice([lambda: eq(v, rng.randrange(4)), lambda: eq(mod(v, 2), 1), lambda: gt(v, rng.choice([0, 1, 2, 127, 255])),
                           lambda: lt(v, rng.choice([2, 3, 128, 256])), lambda: eq(mod(v, 3), rng.randrange(3))])()

    def size(self, st):
        rng = self.rng
        v = self.value(st)
        if v is None:
            return FromFn(const(rng.randrange(4)))
        w = self.value(st)
        e = rng.choice([lambda: mod(v, rng.randrange(2, 7)), lambda: v, lambda: add(mod(v, 4), mod(w, 3)), lambda: add(v, 1), lambda: mod(add(v, w), 5),
                        lambda: mul(mod(v, 4), mod(w, 3))])()
        return FromFn(e, rng.choice(['len_from_fields', 'len_from_fields', 'size_from_fields']))

    # -------------------------------------------------------- records
    def record(self, depth=0):
        self.n += 1
        rng = self.rng
        r = Record('%s_%d' % (self.prefix, self.n) if depth else self.prefix)
        ids = IDS[:]
        rng.shuffle(ids)
        ids = iter(ids)
        st = {k: [] for k in ('plain', 'nums', 'vecs', 'vrecs', 'optnum', 'bytes', 'unions', 'subs', 'opts', 'lens', 'condlens', 'tags')}
        todo = []           # fields whose slots are declared and that come later
        left = rng.randrange(3, 8) if depth == 0 else rng.randrange(1, 4)
        out = r.fields

        def put(f):
            out.append(f)
            if isinstance(f, Scalar):
                (st['nums'] if f.id in r.frozen() or f.id in st['lens'] + st['condlens'] + st['tags'] else st['plain']).append(f.id)
            elif isinstance(f, Arr) and f.es == 1 and f.form in ('array', 'magicbytes') and not f.inner:
                st['bytes'].append(f)
            elif isinstance(f, Vec):
                st['vecs'].append(f)
            elif isinstance(f, VRec):
                st['vrecs'].append(f.id)
            elif isinstance(f, Maybe):
                st['opts'].append(f.id)
                if isinstance(f.base, Scalar):
                    st['optnum'].append(f.id)
            elif isinstance(f, Union):
                st['unions'].append(f.id)
            elif isinstance(f, Rec):
                for k, g in enumerate(f.rec.fields):
                    if g.id in self.plain_ids(f.rec):
                        st['subs'].append((f.id, k + 1, g.id))

        def slot(kind):
            """a length slot: declared here, used later"""
            i = next(ids)
            st[kind].append(i)
            f = self.scalar(i, con=rng.random() < .3, types=LENS, magic=False)
            if isinstance(f.con, Cmp):
                f.con = Cmp(rng.choice(['lt', 'lte']), rng.randrange(2, 60)) if rng.random() < .7 else Cmp('neq', 3)
            elif isinstance(f.con, Any):
                f.con = Any([0, 2, 3])
            elif rng.random() < .08:
                f.con = Cmp('eq', rng.randrange(1, 4))
            put(f)
            return i

        def later(make):
            if rng.random() < .5 and len(todo) < 2:
                todo.append(make)
            else:
                put(make())

        def container(i, length):
            if depth < 2 and rng.random() < .35:
                return self.vrec(i, length, depth)
            return self.vec(i, length)

        def optional(b):
            b.con = NoCon()
            return Maybe(b, self.pred(st, plain=True))

        def alternative(kinds, lens):
            q = rng.random()
            if lens and q < .25:
                return container('', FromField(rng.choice(lens)))
            if q < .32 and st['plain']:
                return container('', self.size(st))
            if q < .55:
                return self.scalar('', types=INTS + ['char'], magic=True) if rng.random() < .9 else Scalar('', rng.choice(FLOATS))
            if q < .75:
                return self.array('', alt=True)
            if depth < 2:
                rec = self.record(depth + 1)
                if q < .92:
                    return Rec('', rec, con=self.rec_con(rec) if rng.random() < .2 else None)
                return ARec('', rec, rng.randrange(1, 4))
            return Scalar('', rng.choice(INTS))

        def alternatives(n, lens):
            got, seen = [], set()
            for _ in range(60):
                a = alternative(n, lens)
                if isinstance(a, Scalar) and a.magic is not None:
                    a = Scalar('', a.T, a.w, con=Cmp('eq', a.magic))
                if isinstance(a, Arr) and a.form == 'magicbytes':
                    a = Arr('', 'u8', a.n, con=Cmp('eq', list(a.magic)))
                if a.ctype() in seen:
                    continue
                seen.add(a.ctype())
                got.append(a)
                if len(got) == n:
                    break
            return got

        while left > 0 or todo:
            if todo and (left <= 0 or rng.random() < .4):
                put(todo.pop(rng.randrange(len(todo)))())
                continue
            left -= 1
            q = rng.random()
            if q < .2:
                put(self.scalar(next(ids)))
            elif q < .3:
                put(self.array(next(ids)))
            elif q < .45:
                i, j = slot('lens'), next(ids)
                later(lambda i=i, j=j: container(j, FromField(i)))
            elif q < .5:
                if st['lens']:
                    put(container(next(ids), FromField(rng.choice(st['lens']))))
                else:
                    put(self.scalar(next(ids)))
            elif q < .58:
                put(container(next(ids), self.size(st)))
            elif q < .66 and depth < 2:
                rec = self.record(depth + 1)
                con = self.rec_con(rec) if rng.random() < .2 else None
                put(Rec(next(ids), rec, con=con) if rng.random() < .7 else ARec(next(ids), rec, rng.randrange(1, 4)))
            elif q < .82:
                if not st['plain']:
                    put(self.scalar(next(ids), magic=False, con=False))
                i = next(ids)
                k = rng.random()
                if k < .3:
                    j = slot('condlens') if rng.random() < .7 or not st['lens'] else rng.choice(st['lens'])
                    later(lambda i=i, j=j: optional(container(i, FromField(j))))
                    continue
                if k < .4:
                    b = container(i, self.size(st))
                elif k < .65:
                    b = self.scalar(i, con=False)
                elif k < .8:
                    b = self.array(i, con=False, alt=True)
                elif depth < 2:
                    rec = self.record(depth + 1)
                    b = Rec(i, rec) if rng.random() < .7 else ARec(i, rec, rng.randrange(1, 3))
                else:
                    b = self.scalar(i, con=False)
                if isinstance(b, Bounded):
                    b.con = NoCon()
                if rng.random() < .07:
                    put(Maybe(b, true, always=True))
                else:
                    put(Maybe(b, self.pred(st), spelling=rng.choice(['parse_if', 'parse_if', 'predicate', 'eval_bool_from_fields'])))
            else:
                lens = list(st['lens'])
                if rng.random() < .4:
                    lens.append(slot('condlens'))
                i = next(ids)
                alts = alternatives(rng.randrange(2, 5), lens)
                k = rng.random()
                if k < .5:
                    t = next(ids)
                    st['tags'].append(t)
                    d = self.scalar(t, types=['u8', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32'], con=rng.random() < .25, magic=False)
                    put(d)
                    vals = []
                    while len(vals) < len(alts):
                        v = self.integer(d)
                        if d.T == 'u64' or d.T == 'u32':
                            v = abs(v)
                        if v not in vals and (not d.sg or abs(v) < 2 ** 31):
                            vals.append(v)
                        elif rng.random() < .2:
                            v = rng.randrange(0, 60)
                            if v not in vals:
                                vals.append(v)
                    if isinstance(d.con, Cmp) and d.con.op != 'neq':
                        d.con = Cmp(rng.choice(['lte', 'gte']), sorted(vals)[len(vals) // 2])
                    elif isinstance(d.con, Any):
                        d.con = Any(sorted(vals)[:-1] or vals)
                    lits = ['%du' % v for v in vals] if d.T == 'u32' else ['%dull' % v for v in vals] if d.T == 'u64' else None
                    later(lambda i=i, t=t, vals=vals, lits=lits, alts=alts: Union(i, Match(t, vals, lits), alts))
                else:
                    if not st['plain']:
                        put(self.scalar(next(ids), magic=False, con=False))
                    if k < .75:
                        ps = [self.pred(st) for _ in alts]
                        if rng.random() < .3:
                            ps[-1] = true
                        put(Union(i, Ladder(ps), alts))
                    else:
                        v = self.value(st)
                        m = rng.choice([3, 4, 5, 7])
                        put(Union(i, Compute(mod(v, m), rng.sample(range(m), min(m, len(alts)))), alts[:m]))
        return r


def tags_of(r):
    t = set()

    def visit(f, cond):
        if isinstance(f, Scalar):
            t.add('scalar')
            if f.w < f.sz:
                t.add('narrow')
            if f.T in FLOATS:
                t.add('float')
        if isinstance(f, Arr):
            t.add('arr')
            if f.form in ('carr', 'cstr'):
                t.add('carr')
        if isinstance(f, (Arr, Vec)) and f.T in FLOATS:
            t.add('float')
        if not isinstance(f, Maybe) and not isinstance(f.con, NoCon):
            t.add('frozenish' if isinstance(f.con, Cmp) and f.con.op == 'eq' else 'con')
        if isinstance(f, Bounded):
            if isinstance(f.len, FromFn):
                t.add('comp')
            else:
                t.add('condlen' if cond else 'derived')
                t.add('len')
            if f.bound is not None:
                t.add('bound')
        if isinstance(f, (Rec, ARec, VRec)):
            t.add(f.k)
            record(f.rec)
        if isinstance(f, Maybe):
            t.add('maybe')
            visit(f.base, True)
        if isinstance(f, Union):
            t.add({Match: 'match', Compute: 'compute', Ladder: 'ladder'}[type(f.ded)])
            for a in f.alts:
                visit(a, True)

    def record(q):
        n = [f.len.id for f in q.fields if isinstance(f, Bounded) and isinstance(f.len, FromField)]
        if len(n) > len(set(n)):
            t.add('shared')
        if q.frozen():
            t.add('frozen')
        for f in q.fields:
            visit(f, False)

    record(r)
    if not t & {'con', 'frozen', 'maybe', 'match', 'ladder', 'compute', 'condlen', 'comp', 'derived', 'frozenish'}:
        t.add('plain')
    return t


def weight(r):
    return sum(1 for _ in r.walk())


def make(key, k, want=lambda name, tags: True):
    """-> [(record, tags)]"""
    out = []
    n = 0
    while len(out) < k and n < 60 * k:
        rng = random.Random('schema %s %d' % (key, n))
        name = 'rg_%s_%d' % (''.join(c if c.isalnum() else '_' for c in key), n)
        n += 1
        r = Maker(rng, name).record()
        t = tags_of(r) | {'random'}
        if weight(r) <= 34 and want(name, t):
            out.append((r, t))
    return out


if __name__ == '__main__':
    import sys
    for r, t in make(sys.argv[1], int(sys.argv[2])):
        em = Emit()
        em.record(r, io=False)
        print('\n'.join(em.out))
        print(sorted(t))
