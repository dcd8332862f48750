"""The schema language: one description gives the specification's JSON and the
C++ types compiled against /repo/include.

Values follow spec/Schema.tla: lists of host bytes for scalars, arrays and
containers of scalars; lists for records; [] or [v] for optionals;
{"i": alternative, "v": value} for unions.
"""
import itertools

DEFAULT_BOUND = 16 * 1024 * 1024
SAT = 1 << 28

TYPES = {
    'u8': (1, False), 'u16': (2, False), 'u32': (4, False), 'u64': (8, False),
    'i8': (1, True), 'i16': (2, True), 'i32': (4, True), 'i64': (8, True),
    'char': (1, True), 'f32': (4, False), 'f64': (8, False),
    'bool': (1, False), 'char8_t': (1, False), 'char16_t': (2, False), 'char32_t': (4, False), 'wchar_t': (4, True),
    'slong': (8, True), 'ulong': (8, False),
}
FLOATS = ('f32', 'f64')


def size_of(T):
    return TYPES[T][0]


def signed(T):
    return TYPES[T][1]


def ext9(x):
    return list((x & ((1 << 72) - 1)).to_bytes(9, 'little'))


def host(x, sz):
    return list((x & ((1 << (8 * sz)) - 1)).to_bytes(sz, 'little'))


def natural(b):
    return int.from_bytes(bytes(b), 'little')


def numsat(b):
    return min(natural(b), SAT)


def integer(b, sg):
    return int.from_bytes(bytes(b), 'little', signed=sg)


# ------------------------------------------------------------ expressions
class E:
    def __init__(self, o, **kw):
        self.o = o
        self.__dict__.update(kw)
        self.kw = kw

    def spec(self):
        d = {'o': self.o}
        for k, v in self.kw.items():
            if k.startswith('_'):
                continue
            d[k] = v.spec() if isinstance(v, E) else v
        return d

    def deps(self):
        out = []
        if 'id' in self.kw:
            out.append(self.kw['id'])
        for k in ('a', 'b'):
            v = self.kw.get(k)
            if isinstance(v, E):
                out += [d for d in v.deps() if d not in out]
        return out

    def cpp(self, var):
        """var: id -> C++ expression naming the sibling's value"""
        o = self.o
        if o == 'const':
            return '%dull' % self.c
        if o == 'true':
            return 'true'
        if o == 'num':
            return 'h::num(%s)' % var(self.id)
        if o == 'raw':
            return var(self.id)
        if o == 'byt':
            return 'h::byt(%s, %d)' % (var(self.id), self.k)
        if o in ('cnt', 'rcnt'):
            return 'static_cast<u64>(%s.size())' % var(self.id)
        if o == 'has':
            return '%s.has_value()' % var(self.id)
        if o == 'onum':
            return 'h::onum(%s)' % var(self.id)
        if o == 'ix':
            return 'static_cast<u64>(%s.index() + 1)' % var(self.id)
        if o == 'sub':
            return 'h::num(%s[s2s_literals::operator""_f<"%s">()])' % (var(self.id), self._name)
        if o == 'not':
            return '(!%s)' % self.a.cpp(var)
        op = {'add': '+', 'mul': '*', 'mod': '%', 'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>',
              'and': '&&', 'or': '||'}[o]
        return '(%s %s %s)' % (self.a.cpp(var), op, self.b.cpp(var))

    def ev(self, env):
        """Only for generating inputs; the specification is the judge."""
        o = self.o
        if o == 'const':
            return self.c
        if o == 'true':
            return True
        if o == 'num':
            return numsat(env[self.id])
        if o == 'raw':
            return integer(env[self.id], self.sg)
        if o == 'byt':
            b = env[self.id]
            return b[self.k] if self.k < len(b) else 0
        if o == 'cnt':
            return len(env[self.id]) // self.c
        if o == 'rcnt':
            return len(env[self.id])
        if o == 'has':
            return env[self.id] != []
        if o == 'onum':
            v = env[self.id]
            return numsat(v[0]) if v else 0
        if o == 'ix':
            return env[self.id]['i']
        if o == 'sub':
            return numsat(env[self.id][self.k - 1])
        if o == 'not':
            return not self.a.ev(env)
        a, b = self.a.ev(env), self.b.ev(env)
        return {'add': lambda: a + b, 'mul': lambda: a * b, 'mod': lambda: a % b, 'eq': lambda: a == b,
                'ne': lambda: a != b, 'lt': lambda: a < b, 'gt': lambda: a > b,
                'and': lambda: a and b, 'or': lambda: a or b}[o]()


def const(c):
    return E('const', c=c)


def num(i):
    return E('num', id=i)


def raw(i, sg=False):
    """the whole number, as the value of a compute or a length"""
    return E('raw', id=i, sg=sg)


def byt(i, k):
    return E('byt', id=i, k=k)


def cnt(i, c=1):
    return E('cnt', id=i, c=c)


def cnt2(i):
    """number of elements of a container of records"""
    return E('rcnt', id=i)


def has(i):
    return E('has', id=i)


def onum(i):
    return E('onum', id=i)


def ix(i):
    return E('ix', id=i)


def sub(i, k, name):
    return E('sub', id=i, k=k, _name=name)


def _lift(x):
    return x if isinstance(x, E) else const(x)


def _bin(o):
    return lambda a, b: E(o, a=_lift(a), b=_lift(b))


add, mul, mod, eq, ne, lt, gt, and_, or_ = map(_bin, ('add', 'mul', 'mod', 'eq', 'ne', 'lt', 'gt', 'and', 'or'))
true = E('true')


def not_(a):
    return E('not', a=a)


# ------------------------------------------------------------ constraints
class Con:
    pass


class NoCon(Con):
    def spec(self, f):
        return {'t': 'none'}

    def cpp(self, f, em):
        return None


class Cmp(Con):
    """op in eq neq lt gt lte gte; v: integer (scalar) or list of host bytes;
    lit: how C++ spells the operand"""

    def __init__(self, op, v, lit=None):
        self.op, self.v, self.lit = op, v, lit

    def spec(self, f):
        return {'t': 'cmp', 'op': self.op, 'v': ext9(self.v) if isinstance(self.v, int) else list(self.v)}

    def cpp(self, f, em):
        return 's2s::%s{%s}' % (self.op, self.lit if self.lit is not None else f.literal(self.v))


class Any(Con):
    def __init__(self, vs, lits=None):
        self.vs, self.lits = vs, lits

    def spec(self, f):
        return {'t': 'any', 'vs': [ext9(v) if isinstance(v, int) else list(v) for v in self.vs]}

    def cpp(self, f, em):
        return 's2s::any_of{%s}' % ', '.join(self.lits or [f.literal(v) for v in self.vs])


class Fn(Con):
    """A user functor over the value, called $."""

    def __init__(self, e):
        self.e = e

    def spec(self, f):
        return {'t': 'fn', 'e': self.e.spec()}

    def cpp(self, f, em):
        n = em.fresh('con')
        em.pre.append('struct %s { constexpr auto operator()(const %s& v) const -> bool { return %s; } };'
                      % (n, f.ctype(), self.e.cpp(lambda i: 'v')))
        return n + '{}'


# ------------------------------------------------------------ lengths
class FromField:
    def __init__(self, i):
        self.id = i

    def spec(self):
        return {'t': 'field', 'id': self.id}

    def cpp(self, em):
        return 's2s::len_from_field<"%s">' % self.id


class FromFn:
    def __init__(self, e, name='len_from_fields'):
        self.e, self.name = e, name

    def spec(self):
        return {'t': 'fn', 'e': self.e.spec()}

    def cpp(self, em):
        f = em.callable(self.e, 'std::size_t')
        return 's2s::%s<%s%s>' % (self.name, f, ''.join(', "%s"' % d for d in self.e.deps()))


def settled(f, v):
    """v with every byte of a bool made one a bool can hold"""
    if isinstance(f, (Scalar, Arr, Vec)):
        return [b & 1 for b in v] if f.T == 'bool' else v
    if isinstance(f, Rec):
        return settle(f.rec, v)
    if isinstance(f, (ARec, VRec)):
        return [settle(f.rec, x) for x in v]
    if isinstance(f, Maybe):
        return [settled(f.base, v[0])] if v else v
    if isinstance(f, Union):
        return {'i': v['i'], 'v': settled(f.alts[v['i'] - 1], v['v'])}
    return v


def settle(r, vals):
    if not hasattr(r, 'has_bools'):
        r.has_bools = any(getattr(f, 'T', '') == 'bool' for f in r.walk())
    return [settled(f, v) for f, v in zip(r.fields, vals)] if r.has_bools else vals


# ------------------------------------------------------------ fields
class Field:
    con = NoCon()
    id = ''
    desc = ''
    opt_order = None
    extra = ()          # further options, kind and C++ text (ill-formed schemas)
    drop = ()           # kinds of options left out

    def base_spec(self):
        return {'id': self.id, 'k': self.k, 'con': self.con.spec(self), 'desc': self.desc,
                'opts': self.opt_kinds(), 'cpp': self.tag_key()}

    def opt_kinds(self):
        return [k for k, _ in self.options(None) if k not in self.drop] + [k for k, _ in self.extra]

    def tag_key(self):
        return self.ctype()

    def options(self, em):
        return []

    def ordered_options(self, em):
        o = self.options(em)
        if self.opt_order:
            o = sorted(o, key=lambda kv: self.opt_order.index(kv[0]))
        return [v for k, v in o if k not in self.drop] + [v for _, v in self.extra]

    def con_opt(self, em):
        c = self.con.cpp(self, em) if em else 'x'
        return [('con', c)] if not isinstance(self.con, NoCon) else []


class Scalar(Field):
    k = 'scalar'

    def __init__(self, id, T, w=None, con=None, magic=None, order=None, explicit=True, magic_lit=None):
        self.id, self.T = id, T
        self.sz, self.sg = TYPES[T]
        self.explicit = explicit or w is not None
        self.w = w if w is not None else self.sz
        self.magic = magic
        self.magic_lit = magic_lit
        self.opt_order = order
        self.desc = 'magic_number' if magic is not None else 'basic_field'
        self.con = Cmp('eq', magic) if magic is not None else (con or NoCon())

    def ctype(self):
        return self.T

    def literal(self, v):
        if self.T in ('u64', 'i64') and (v > 2 ** 31 or v < -2 ** 31):
            if v == -2 ** 63:
                return 'i64{-9223372036854775807ll - 1}'
            return '%s{%d%s}' % (self.T, v, 'ull' if self.T == 'u64' else 'll')
        if self.T == 'u32' and v >= 2 ** 31:
            return 'u32{%du}' % v
        return '%s{%d}' % (self.T, v)

    def options(self, em):
        o = []
        if self.explicit:
            o.append(('size', '%d_B' % self.w))
        if self.magic is None:
            o += self.con_opt(em)
        return o

    def spec(self):
        d = self.base_spec()
        d.update(sz=self.sz, sg=self.sg, w=self.w, bl=self.T == 'bool')
        return d

    def cpp(self, em):
        if self.magic is not None:
            return 's2s::magic_number<"%s", %s, %d_B, %s>' % (
                self.id, self.T, self.w, self.magic_lit or self.literal(self.magic))
        return 's2s::basic_field<%s>' % ', '.join(['"%s"' % self.id, self.T] + self.ordered_options(em))

    def tag(self, em):
        return 's2s::as_trivial<%s>' % ', '.join([self.T] + self.ordered_options(em))


class Arr(Field):
    """form: array, carr, fstr, cstr, magicbytes, magicstr; inner: inner extents"""
    k = 'arr'

    def __init__(self, id, T, n, con=None, form='array', inner=(), magic=None):
        self.id, self.T, self.n, self.form, self.inner = id, T, n, form, tuple(inner)
        if form in ('fstr', 'cstr', 'magicstr'):
            self.T = 'char'
        self.es = size_of(self.T)
        self.magic = magic
        self.con = Cmp('eq', list(magic)) if magic is not None else (con or NoCon())
        self.desc = {'array': 'fixed_array_field', 'carr': 'c_arr_field', 'fstr': 'fixed_string_field',
                     'cstr': 'c_str_field', 'magicbytes': 'magic_byte_array', 'magicstr': 'magic_string'}[form]

    def count(self):
        n = self.n + (1 if self.form in ('fstr', 'cstr', 'magicstr') else 0)
        for d in self.inner:
            n *= d
        return n

    def elem(self):
        t = self.T
        for d in reversed(self.inner):
            t = 'std::array<%s, %d>' % (t, d)
        return t

    def ctype(self):
        if self.form in ('array', 'magicbytes'):
            return 'std::array<%s, %d>' % (self.elem(), self.n)
        if self.form in ('fstr', 'magicstr'):
            return 's2s::fixed_string<%d>' % self.n
        return 'carr_%s_%d' % (self.T, self.n + (1 if self.form == 'cstr' else 0))

    def literal(self, v):
        if self.form in ('fstr', 'magicstr'):
            return 's2s::fixed_string<%d>("%s")' % (self.n, ''.join('\\x%02x""' % b for b in v[:-1]).replace('""', '" "'))
        es = self.es
        xs = [integer(v[i:i + es], signed(self.T)) for i in range(0, len(v), es)]
        return 'std::array<%s, %d>{%s}' % (self.T, self.n, ', '.join('%s{%d}' % (self.T, x) for x in xs))

    def options(self, em):
        return [] if self.magic is not None else self.con_opt(em)

    def spec(self):
        d = self.base_spec()
        d.update(es=self.es, n=self.count(), bl=self.T == 'bool')
        return d

    def cpp(self, em):
        i = '"%s"' % self.id
        if self.form == 'magicbytes':
            return 's2s::magic_byte_array<%s, %d, %s>' % (i, self.n, self.literal(list(self.magic)))
        if self.form == 'magicstr':
            return 's2s::magic_string<%s, %s>' % (i, '"%s"' % ''.join(chr(b) for b in self.magic[:-1]))
        a = {'array': [i, self.elem(), str(self.n)], 'carr': [i, self.T, str(self.n)],
             'fstr': [i, str(self.n)], 'cstr': [i, str(self.n)]}[self.form]
        return 's2s::%s<%s>' % (self.desc, ', '.join(a + self.ordered_options(em)))

    def tag(self, em):
        if self.form == 'fstr':
            return 's2s::as_fixed_string<%s>' % ', '.join([str(self.n)] + self.ordered_options(em))
        return 's2s::as_fixed_arr<%s>' % ', '.join([self.elem(), str(self.n)] + self.ordered_options(em))


class Bounded(Field):
    def bound_value(self):
        return self.bound if self.bound is not None else self.default_bound

    default_bound = DEFAULT_BOUND

    def options(self, em):
        o = [('len', self.len.cpp(em) if em else 'x')]
        if self.bound is not None:
            o.append(('bound', 's2s::max_bytes<%d>' % self.bound))
        return o + self.con_opt(em)


class Vec(Bounded):
    k = 'vec'

    def __init__(self, id, T, len, bound=None, con=None, form='vec', inner=(), order=None):
        self.id, self.T, self.len, self.bound, self.form, self.inner = id, T, len, bound, form, tuple(inner)
        if form == 'str':
            self.T = 'char'
        self.es = size_of(self.T)
        self.con = con or NoCon()
        self.opt_order = order
        self.desc = 'str_field' if form == 'str' else 'vec_field'

    @property
    def foot(self):
        f = self.es
        for d in self.inner:
            f *= d
        return f

    def elem(self):
        t = self.T
        for d in reversed(self.inner):
            t = 'std::array<%s, %d>' % (t, d)
        return t

    def ctype(self):
        return 'std::string' if self.form == 'str' else 'std::vector<%s>' % self.elem()

    def spec(self):
        d = self.base_spec()
        d.update(es=self.es, bl=self.T == 'bool', foot=self.foot, len=self.len.spec(), bound=min(self.bound_value(), 1 << 30))
        return d

    def cpp(self, em):
        i = '"%s"' % self.id
        if self.form == 'str':
            return 's2s::str_field<%s>' % ', '.join([i] + self.ordered_options(em))
        return 's2s::vec_field<%s>' % ', '.join([i, self.elem()] + self.ordered_options(em))

    def tag(self, em):
        if self.form == 'str':
            return 's2s::as_string<%s>' % ', '.join(self.ordered_options(em))
        return 's2s::as_vec<%s>' % ', '.join([self.elem()] + self.ordered_options(em))


class Rec(Field):
    k = 'rec'
    desc = 'struct_field'

    def __init__(self, id, rec, con=None):
        self.id, self.rec = id, rec
        self.con = con or NoCon()

    def ctype(self):
        return self.rec.name

    def options(self, em):
        return self.con_opt(em)

    def spec(self):
        d = self.base_spec()
        d.update(recs=self.rec.spec())
        return d

    def cpp(self, em):
        return 's2s::struct_field<%s>' % ', '.join(['"%s"' % self.id, self.rec.name] + self.ordered_options(em))

    def tag(self, em):
        return 's2s::as_struct<%s>' % ', '.join([self.rec.name] + self.ordered_options(em))


class ARec(Field):
    k = 'arec'
    desc = 'array_of_records'

    def __init__(self, id, rec, n, con=None):
        self.id, self.rec, self.n = id, rec, n
        self.con = con or NoCon()

    def ctype(self):
        return 'std::array<%s, %d>' % (self.rec.name, self.n)

    def options(self, em):
        return self.con_opt(em)

    def spec(self):
        d = self.base_spec()
        d.update(recs=self.rec.spec(), n=self.n)
        return d

    def cpp(self, em):
        return 's2s::array_of_records<%s>' % ', '.join(
            ['"%s"' % self.id, self.rec.name, str(self.n)] + self.ordered_options(em))

    def tag(self, em):
        return 's2s::as_arr_of_records<%s>' % ', '.join(
            [self.rec.name, str(self.n)] + self.ordered_options(em))


class VRec(Bounded):
    k = 'vrec'
    desc = 'vector_of_records'

    def __init__(self, id, rec, len, bound=None, con=None, order=None, via_vec=False):
        self.id, self.rec, self.len, self.bound = id, rec, len, bound
        self.con = con or NoCon()
        self.opt_order = order
        self.via_vec = via_vec

    def ctype(self):
        return 'std::vector<%s>' % self.rec.name

    def spec(self):
        d = self.base_spec()
        d.update(recs=self.rec.spec(), foot=SIZES.get(self.rec.name, 64), len=self.len.spec(),
                 bound=min(self.bound_value(), 1 << 30))
        return d

    def cpp(self, em):
        return 's2s::%s<%s>' % ('vec_field' if self.via_vec else 'vector_of_records', ', '.join(
            ['"%s"' % self.id, self.rec.name] + self.ordered_options(em)))

    def tag(self, em):
        return 's2s::as_vec_of_records<%s>' % ', '.join([self.rec.name] + self.ordered_options(em))


class Maybe(Field):
    k = 'maybe'
    desc = 'maybe'

    def __init__(self, base, pred, always=False, spelling='parse_if'):
        self.base, self.pred, self.id = base, pred, base.id
        self.always = always
        self.spelling = spelling

    def ctype(self):
        return 'std::optional<%s>' % self.base.ctype()

    def spec(self):
        return {'id': self.id, 'k': 'maybe', 'base': self.base.spec(), 'pred': self.pred.spec(),
                'desc': 'maybe', 'opts': [], 'cpp': self.ctype()}

    def cpp(self, em):
        if self.always:
            p = 's2s::always_present'
        else:
            p = 's2s::%s<%s%s>' % (self.spelling, em.callable(self.pred, 'bool'),
                                   ''.join(', "%s"' % d for d in self.pred.deps()))
        return 's2s::maybe<%s, %s>' % (self.base.cpp(em), p)


class Match:
    def __init__(self, id, vals, lits=None):
        self.id, self.vals, self.lits = id, vals, lits

    def spec(self):
        return {'t': 'match', 'id': self.id, 'vals': [ext9(v) for v in self.vals]}


class Compute:
    def __init__(self, e, vals, R='u64'):
        self.e, self.vals, self.R, self.lits = e, vals, R, None

    def spec(self):
        return {'t': 'compute', 'e': self.e.spec(), 'vals': [ext9(v) for v in self.vals]}


class Ladder:
    def __init__(self, preds):
        self.preds = preds

    def spec(self):
        return {'t': 'ladder', 'preds': [p.spec() for p in self.preds]}


class Union(Field):
    k = 'union'
    desc = 'variance'

    def __init__(self, id, ded, alts, con=None):
        self.id, self.ded, self.alts = id, ded, alts
        self.con = con or NoCon()

    def ctype(self):
        return 'std::variant<%s>' % ', '.join(a.ctype() for a in self.alts)

    def options(self, em):
        return self.con_opt(em)

    def spec(self):
        d = self.base_spec()
        d.update(ded=self.ded.spec(), alts=[a.spec() for a in self.alts])
        return d

    def cpp(self, em):
        tags = [a.tag(em) for a in self.alts]
        d = self.ded
        if isinstance(d, Ladder):
            br = ['s2s::branch<s2s::predicate<%s%s>, %s>' % (
                em.callable(p, 'bool'), ''.join(', "%s"' % x for x in p.deps()), t)
                for p, t in zip(d.preds, tags)]
            guide = 's2s::type<s2s::type_if_else<%s>>' % ', '.join(br)
        else:
            lits = d.lits or [str(v) for v in d.vals]
            cs = ', '.join('s2s::match_case<%s, %s>' % (v, t) for v, t in zip(lits, tags))
            if isinstance(d, Match):
                src = 's2s::match_field<"%s">' % d.id
            else:
                src = 's2s::compute<%s, %s%s>' % (em.callable(d.e, d.R), d.R,
                                                 ''.join(', "%s"' % x for x in d.e.deps()))
            guide = 's2s::type<%s, s2s::type_switch<%s>>' % (src, cs)
        return 's2s::variance<%s>' % ', '.join(['"%s"' % self.id, guide] + self.ordered_options(em))


SIZES = {}          # sizeof of record types, as the harness reports them


class Record:
    def __init__(self, name, *fields):
        self.name, self.fields = name, list(fields)

    def spec(self):
        return [f.spec() for f in self.fields]

    def field(self, id):
        return next(f for f in self.fields if f.id == id)

    # which fields the library fills in (for building inputs and for the
    # harness; the specification has its own definition)
    def length_targets(self):
        return {f.len.id for f in self.fields if isinstance(f, Bounded) and isinstance(f.len, FromField)}

    def discriminants(self):
        return {f.ded.id for f in self.fields if isinstance(f, Union) and isinstance(f.ded, Match)}

    def frozen(self):
        return {f.id for f in self.fields if f.k in ('scalar', 'arr')
                and isinstance(f.con, Cmp) and f.con.op == 'eq'}

    def records(self):
        """record types used, innermost first, this one last"""
        out = []

        def visit(f):
            if isinstance(f, (Rec, ARec, VRec)):
                for r in f.rec.records():
                    if r not in out:
                        out.append(r)
            elif isinstance(f, Maybe):
                visit(f.base)
            elif isinstance(f, Union):
                for a in f.alts:
                    visit(a)
        for f in self.fields:
            visit(f)
        out.append(self)
        return out

    def walk(self):
        """every field at every depth, alternatives and bases included"""
        def visit(f):
            yield f
            if isinstance(f, Maybe):
                yield from visit(f.base)
            elif isinstance(f, Union):
                for a in f.alts:
                    yield from visit(a)
            elif isinstance(f, (Rec, ARec, VRec)):
                yield from f.rec.walk()
        for f in self.fields:
            yield from visit(f)


class Emit:
    """C++ for a set of schemas; one instance per translation unit."""

    def __init__(self):
        self.pre = []
        self.n = 0
        self.owner = ''
        self.done = {}
        self.out = []

    def fresh(self, p):
        # named after the record: the same entity in every translation unit
        self.n += 1
        return '%s_%s_%d' % (p, self.owner, self.n)

    def callable(self, e, R):
        n = self.fresh('fn')
        ids = e.deps()
        names = {d: 'a%d' % i for i, d in enumerate(ids)}
        self.pre.append('inline constexpr auto %s = [](%s) -> %s { return static_cast<%s>(%s); };' % (
            n, ', '.join('const auto& a%d' % i for i in range(len(ids))), R, R, e.cpp(lambda d: names[d])))
        return n

    def record(self, r, io=True):
        if r.name in self.done:
            assert self.done[r.name] is r, r.name
            return
        self.done[r.name] = r
        for q in r.records()[:-1]:
            self.record(q, io)
        self.owner, self.n = r.name, 0
        body = [f.cpp(self) for f in r.fields]
        self.out += self.pre
        self.pre = []
        self.out.append('using %s = s2s::struct_field_list<\n  %s>;' % (r.name, ',\n  '.join(body)))
        if not io:
            return
        hidden = r.length_targets()
        ro = r.discriminants() | r.frozen()
        puts, sets = [], []
        for i, f in enumerate(r.fields):
            if i:
                puts.append("o += ',';")
            if f.id in hidden:
                puts.append('o += "[]";')
            else:
                puts.append('put_field(o, r, "%s"_f);' % f.id)
            if f.id in hidden or f.id in ro:
                sets.append('t.skip();')
            else:
                sets.append('set_field(t, r, "%s"_f);' % f.id)
        self.out.append('''template <> struct h::rec_io<%s> {
  static constexpr void put(std::string& o, const %s& r) { o += '['; %s o += ']'; }
  static constexpr void set(Tok& t, %s& r) { t.word(); %s t.word(); }
};
static h::size_reg<%s> size_reg_%s("%s");''' % (r.name, r.name, ' '.join(puts), r.name, ' '.join(sets),
                                             r.name, r.name, r.name))

    def text(self, regs):
        head = '#include "rt.hpp"\n'
        arrs = sorted({f.ctype() for r in self.done.values() for f in r.walk()
                       if isinstance(f, Arr) and f.form in ('carr', 'cstr')})
        al = ''.join('using %s = %s[%s];\n' % (a, a[5:].rsplit('_', 1)[0], a.rsplit('_', 1)[1]) for a in arrs)
        return head + al + '\n'.join(self.out) + '\n' + \
            '\n'.join('static h::reg<%s> reg_%d(%d);' % (r.name, i, i) for i, r in regs) + '\n'


def tokens(r, vals):
    """A struct in the harness's input format."""
    return '( ' + ' '.join(tok(f, v) for f, v in zip(r.fields, vals)) + ' )'


def tok(f, v):
    if isinstance(f, Rec):
        return tokens(f.rec, v)
    if isinstance(f, (ARec, VRec)):
        return '( ' + ' '.join(tokens(f.rec, x) for x in v) + ' )'
    if isinstance(f, Maybe):
        return '-' if v == [] else '+ ' + tok(f.base, v[0])
    if isinstance(f, Union):
        return '@%d %s' % (v['i'], tok(f.alts[v['i'] - 1], v['v']))
    return '.' + bytes(v).hex()
