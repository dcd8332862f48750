"""What the compiler says about schemas: programs that have to be accepted or
rejected, and what operator[] grants."""
import copy
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from build import CXX, HARNESS, JOBS, ROOT, ToolError, _run, diagnosed, first_error
import catalogue as C
import dsl
from dsl import *
import tlc

STATIC_CFG = open(os.path.join(tlc.SPEC, 'Static.cfg')).read()


# ------------------------------------------------------------ variations
def rename(f, id):
    f.id = id
    if isinstance(f, Maybe):
        f.base.id = id


def own_deps(f):
    out = []

    def ln(g):
        if isinstance(g, Bounded):
            out.extend([g.len.id] if isinstance(g.len, FromField) else g.len.e.deps())
    if isinstance(f, Maybe):
        ln(f.base)
        out.extend(f.pred.deps())
    elif isinstance(f, Union):
        for a in f.alts:
            ln(a)
        d = f.ded
        if isinstance(d, Match):
            out.append(d.id)
        elif isinstance(d, Compute):
            out.extend(d.e.deps())
        else:
            for p in d.preds:
                out.extend(p.deps())
    else:
        ln(f)
    return [x for i, x in enumerate(out) if x not in out[:i]]


def leaves(r):
    """(path description, field) of every field, alternative and base, not below nested records"""
    for i, f in enumerate(r.fields):
        yield 'field %d' % i, f
        if isinstance(f, Maybe):
            yield 'base of %d' % i, f.base
        elif isinstance(f, Union):
            for j, a in enumerate(f.alts):
                yield 'alternative %d of %d' % (j, i), a


OPTIONS = {
    'size': '1_B', 'bound': 's2s::max_bytes<64>', 'len': 's2s::len_from_fields<[]{ return std::size_t{2}; }>',
}


def con_text(f):
    return '[](const %s&) { return true; }' % f.ctype()


def vary(r):
    """-> [(what, record)]: r with one thing changed; some stay well formed"""
    out = []

    def go(what, change):
        q = copy.deepcopy(r)
        if change(q) is not False:
            q.name = 'prog'
            out.append(('%s: %s' % (r.name, what), q))
    n = len(r.fields)
    ids = [f.id for f in r.fields]
    for j in range(1, n):
        for i in {0, j - 1}:
            go('field %d takes the id of field %d' % (j, i), lambda q: rename(q.fields[j], ids[i]))
    for j in range(n - 1):
        def swap(q):
            q.fields[j], q.fields[j + 1] = q.fields[j + 1], q.fields[j]
        go('fields %d and %d swapped' % (j, j + 1), swap)
    for j, f in enumerate(r.fields):
        for d in own_deps(f):
            if d not in ids:
                continue
            i = ids.index(d)

            def late(q):
                g = q.fields.pop(i)
                q.fields.insert(j, g)
            go('field %d moved behind its user %d' % (i, j), late)

            def unknown(q):
                rename(q.fields[i], 'q_' + d)
            go('what field %d depends on is renamed' % j, unknown)

            def onto_self(q):
                rename(q.fields[i], 'q_' + d)
                rename(q.fields[j], d)
            go('field %d depends on itself' % j, onto_self)

            def gone(q):
                q.fields.pop(i)
            go('field %d is gone' % i, gone)
    for k, (path, f) in enumerate(leaves(r)):
        def at(q):
            return list(leaves(q))[k][1]
        if isinstance(f, Scalar):
            def wide(q):
                g = at(q)
                g.w, g.explicit = g.sz + 1, True
            go(path + ' wider than its type', wide)
            if f.magic is None:
                def narrow(q):
                    g = at(q)
                    g.w, g.explicit = max(1, g.sz // 2), True
                if f.T not in dsl.FLOATS and isinstance(f.con, NoCon):
                    go(path + ' narrowed', narrow)
        if not isinstance(f, (Maybe, Union)) and getattr(f, 'magic', None) is None and \
                not (isinstance(f, Arr) and f.form in ('carr', 'cstr')):
            for o, text in OPTIONS.items():
                if o == 'len' and isinstance(f, Bounded):
                    text = 's2s::len_from_fields<[]{ return std::size_t{3}; }>'

                def more(q):
                    at(q).extra = ((o, text),)
                go('%s given %s' % (path, o), more)

            def con(q):
                g = at(q)
                g.extra = (('con', con_text(g)),)
                if isinstance(g.con, NoCon):
                    g.con = Fn(true)
                    g.extra = ()
            go(path + ' given a constraint', con)

            def cons(q):
                g = at(q)
                g.extra = (('con', con_text(g)), ('con', con_text(g)))
            if isinstance(f.con, NoCon) and not path.startswith('base'):
                go(path + ' given two constraints', cons)
        if isinstance(f, Bounded):
            def nolen(q):
                at(q).drop = ('len',)
            go(path + ' without a length', nolen)

            def bounds(q):
                at(q).extra = (('bound', 's2s::max_bytes<64>'), ('bound', 's2s::max_bytes<65>'))
            go(path + ' with two bounds', bounds)

            def lens(q):
                g = at(q)
                g.extra = (('len', g.len.cpp(dsl.Emit()) if isinstance(g.len, FromField) else
                            's2s::len_from_fields<[]{ return std::size_t{3}; }>'),)
            go(path + ' with two lengths', lens)
        if isinstance(f, Union):
            d = f.ded
            if not isinstance(d, Ladder):
                def dupv(q):
                    at(q).ded.vals[1] = at(q).ded.vals[0]
                    if at(q).ded.lits:
                        at(q).ded.lits[1] = at(q).ded.lits[0]
                go(path + ' repeats a match value', dupv)

                def otherv(q):
                    at(q).ded.vals[1] = max(at(q).ded.vals) + 1
                    at(q).ded.lits = None
                if max(d.vals) < 100:
                    go(path + ' has another match value', otherv)

            def dupa(q):
                g = at(q)
                g.alts[1] = copy.copy(g.alts[0])
            go(path + ' repeats an alternative', dupa)

            def dupn(q):
                g = at(q)
                g.alts[1] = copy.copy(g.alts[0])
                g.alts[1].con = Fn(true)
            go(path + ' repeats a type with another constraint', dupn)
            for o in ('size', 'bound'):
                def more(q):
                    at(q).extra = ((o, OPTIONS[o]),)
                go('%s given %s' % (path, o), more)
    return out


BASES = ['co_cmp', 'le_u16', 'le_shared', 'op_bits', 'op_len', 'cl_union', 'cl_maybe', 'cp_mul', 'cp_union', 'un_tags', 'un_two',
         'la_order', 'cu_basic', 're_sameid', 'bo_alt', 'bo_maybe', 'fz_eq', 'mx_image', 'mx_packet', 'op_chain', 'ar_multi',
         'xx_ladder_alts', 're_vec2', 'id_prefix', 'un_own_con', 'sc_narrow', 'fz_num', 'bo_con', 'co_rec', 'dp_fail', 'cl_ladder', 'xx_rec_cons', 'op_two', 'wi_deps', 'la_two', 'mx_tlv']


def nested():
    """nested records cannot see the fields around them, and the other way round"""
    lv = Record('nv', Scalar('n', 'u8'), Vec('v', 'u16', FromField('n')))
    out = [('nested: own length', Record('prog', Scalar('n', 'u8'), Rec('r', lv), Vec('v', 'u8', FromField('n'))))]
    bad = Record('nv', Vec('v', 'u16', FromField('n')))
    out.append(('nested: length outside', Record('prog', Scalar('n', 'u8'), Rec('r', bad))))
    out.append(('nested: length inside', Record('prog', Rec('r', lv), Vec('v', 'u8', FromField('n')))))
    opt = Record('nv', Maybe(Scalar('a', 'u8'), eq(num('f'), 1)))
    out.append(('nested: predicate outside', Record('prog', Scalar('f', 'u8'), Rec('r', opt))))
    out.append(('nested: predicate outside, in a vector', Record('prog', Scalar('f', 'u8'), Scalar('n', 'u8'), VRec('r', opt, FromField('n')))))
    un = Record('nv', Union('u', Match('t', [1, 2]), [Scalar('', 'u8'), Scalar('', 'u16')]))
    out.append(('nested: tag outside', Record('prog', Scalar('t', 'u8'), Rec('r', un))))
    out.append(('nested: tag outside, as an alternative', Record('prog', Scalar('t', 'u8'), Union('w', Match('t', [1, 2]), [Rec('', un), Scalar('', 'u8')]))))
    dup = Record('nv', Scalar('a', 'u8'), Scalar('a', 'u16'))
    out.append(('nested: duplicate ids', Record('prog', Scalar('f', 'u8'), Rec('r', dup))))
    out.append(('nested: duplicate ids, in an array', Record('prog', Scalar('f', 'u8'), ARec('r', dup, 2))))
    out.append(('nested: duplicate ids, in an optional', Record('prog', Scalar('f', 'u8'), Maybe(Rec('r', dup), eq(num('f'), 1)))))
    ok = Record('nv', Scalar('a', 'u8'), Scalar('b', 'u16'))
    out.append(('nested: same id inside and outside', Record('prog', Scalar('a', 'u8'), Rec('r', ok), Scalar('b', 'u8'))))
    for T in ('u8', 'u16', 'u32', 'u64', 'i8', 'i64'):
        z = size_of(T)
        out.append(('width %d of %s' % (z + 1, T), Record('prog', Scalar('a', T, z + 1))))
        out.append(('magic width %d of %s' % (z + 1, T), Record('prog', Scalar('a', T, z + 1, magic=1))))
        out.append(('width %d of %s in an alternative' % (z + 1, T), Record('prog', Scalar('t', 'u8'), Union('u', Match('t', [1, 2]), [
            Scalar('', T, z + 1), Arr('', 'u8', 3)]))))
        out.append(('width %d of %s in an optional' % (z + 1, T), Record('prog', Scalar('t', 'u8'), Maybe(Scalar('a', T, z + 1), eq(num('t'), 1)))))
    return out


def programs():
    by = {r.name: r for r, _ in C.ALL}
    out = nested()
    seen = set()
    for b in BASES:
        for what, q in vary(by[b]):
            key = json.dumps(q.spec(), sort_keys=True)
            if key not in seen:
                seen.add(key)
                out.append((what, q))
    return out


def declaration_text(q):
    em = dsl.Emit()
    em.record(q, io=False)
    return em.text([]) + '''
static_assert(sizeof(decltype(prog{})) > 0);
'''


def program_text(q):
    return declaration_text(q) + '''
auto in_be(std::stringstream& s) { return s2s::struct_cast_be<prog>(s); }
auto in_le(std::stringstream& s) { return s2s::struct_cast_le<prog>(s); }
auto out_be(std::stringstream& s, const prog& x) { return s2s::stream_cast_be<prog>(s, x); }
auto out_le(std::stringstream& s, const prog& x) { return s2s::stream_cast_le<prog>(s, x); }
'''


def _pch(dir, include):
    os.makedirs(dir, exist_ok=True)
    with open(os.path.join(dir, 'rt.hpp'), 'w') as f:
        f.write('#include "%s/rt.hpp"\n' % HARNESS)
    base = [CXX, '-std=c++23', '-w', '-O0', '-DKINDS=1', '-I' + dir, '-I' + include]
    rc, err = _run(base + ['-x', 'c++-header', os.path.join(dir, 'rt.hpp'), '-o', os.path.join(dir, 'rt.hpp.gch')])
    if rc:
        raise ToolError('precompiling: ' + err[:1000])
    return base


BATCH = 14


def blamed(err):
    """programs of a batch that the diagnostics belong to: the context of an
    error ends with the line of the program that asked for it"""
    bad, last = {}, None
    for line in err.split('\n'):
        m = re.findall(r'prog_(\d+):', line)
        if m:
            last = int(m[-1])
        if ' error: ' in line and last is not None:
            bad.setdefault(last, line.strip()[:400])
    return bad


def compile_programs(dir, include, progs, batch=BATCH, text=program_text):
    """-> [(accepted?, diagnostic)]"""
    base = _pch(dir, include)

    def alone(k):
        src = os.path.join(dir, 'p%d.cpp' % k)
        with open(src, 'w') as f:
            f.write(text(progs[k][1]))
        rc, err = _run(base + ['-fsyntax-only', src])
        if rc and not diagnosed(rc, err):
            raise ToolError('compiling %s: %s' % (progs[k][0], err[-500:]))
        os.unlink(src)
        return rc == 0, first_error(err) if rc else ''

    def group(ks, last=False):
        """several programs in one translation unit"""
        if len(ks) == 1:
            return {ks[0]: alone(ks[0])}
        src = os.path.join(dir, 'b%d%s.cpp' % (ks[0], 'l' if last else ''))
        with open(src, 'w') as f:
            f.write('#include "rt.hpp"\n')
            for k in ks:
                f.write('#line 1 "prog_%d"\nnamespace p%d {\n%s}\n' % (k, k, text(progs[k][1]).split('\n', 1)[1]))
        rc, err = _run(base + ['-fsyntax-only', src])
        os.unlink(src)
        if rc == 0:
            return {k: (True, '') for k in ks}
        bad = {k: e for k, e in blamed(err).items() if k in ks} if diagnosed(rc, err) else {}
        out = {k: (False, e) for k, e in bad.items()}
        left = [k for k in ks if k not in out]
        if not left:
            return out
        if not bad or last:
            out.update({k: alone(k) for k in left})
        else:
            out.update(group(left, True))
        return out
    order = list(range(len(progs)))
    parts = [order[i::(len(order) + batch - 1) // batch] for i in range((len(order) + batch - 1) // batch)]
    res = {}
    with ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(group, parts):
            res.update(r)
    return [res[k] for k in order]


# ------------------------------------------------------------ access
def access_facts(dir, include, records):
    """-> [fact]"""
    base = _pch(dir, include)
    stub = '''
namespace h { thread_local std::size_t g_max_alloc; thread_local bool g_counting;
std::vector<entry>& entries() { static std::vector<entry> e; return e; }
std::map<std::string, std::size_t>& sizes() { static std::map<std::string, std::size_t> s; return s; } }
template <class S, class A, class T> void probe(int n) {
  constexpr bool cr = requires (const S& s) { s[A{}]; };
  constexpr bool mr = requires (S& s) { s[A{}]; };
  bool as = false, ca = false, ty = false;
  if constexpr(mr) {
    using R = decltype(std::declval<S&>()[A{}]);
    as = std::is_reference_v<R> && !std::is_const_v<std::remove_reference_t<R>>;
    ty = std::is_same_v<std::remove_cvref_t<R>, T>;
  }
  if constexpr(cr) {
    using R = decltype(std::declval<const S&>()[A{}]);
    ca = std::is_reference_v<R> && !std::is_const_v<std::remove_reference_t<R>>;
    ty = ty && std::is_same_v<std::remove_cvref_t<R>, T>;
  }
  std::printf("%d %d %d %d %d %d\\n", n, cr, mr, as, ca, ty);
}
'''
    facts, work = [], []
    n = 0
    for k in range(0, len(records), 8):
        part = records[k:k + 8]
        em = dsl.Emit()
        for r in part:
            em.record(r, io=False)
        lines = []
        for r in [q for q in em.done.values()]:
            ids = [(f.id, f.ctype()) for f in r.fields]
            have = {i for i, _ in ids}
            for x in [ids[0][0] + 'x', ids[0][0][:-1] or 'zz9', 'nothing', 'n', 'v', 'r', 'm']:
                if x not in have:
                    ids.append((x, 'int'))
                    have.add(x)
            for i, t in ids:
                lines.append('probe<%s, decltype("%s"_f), %s>(%d);' % (r.name, i, t, n))
                facts.append({'fact': 'access', 'fs': r.spec(), 'id': i, 'n': n, 'rec': r.name})
                n += 1
        src = os.path.join(dir, 'a%d.cpp' % k)
        with open(src, 'w') as f:
            f.write(em.text([]) + stub + 'int main() {\n  ' + '\n  '.join(lines) + '\n}\n')
        work.append(src)

    def one(src):
        rc, err = _run(base + [src, '-o', src + '.exe'])
        if rc:
            raise ToolError('access probes: ' + first_error(err))
        p = subprocess.run([src + '.exe'], capture_output=True, text=True, timeout=60)
        if p.returncode:
            raise ToolError('access probes: exit %d' % p.returncode)
        return p.stdout
    with ThreadPoolExecutor(JOBS) as ex:
        for out in ex.map(one, work):
            for line in out.split('\n'):
                if line:
                    k, cr, mr, a, ca, ty = (int(x) for x in line.split())
                    facts[k]['seen'] = {'cread': bool(cr), 'mread': bool(mr), 'assign': bool(a), 'cassign': bool(ca), 'typed': bool(ty)}
    return facts


def judge(dir, facts, tag=''):
    """-> {n: what the specification says} of the facts it contradicts, states"""
    for k, f in enumerate(facts):
        f['n'] = k
    n = min(JOBS, max(1, len(facts) // 100))
    envs = []
    for k in range(n):
        p = os.path.join(dir, '%sfacts%d.ndjson' % (tag, k))
        with open(p, 'w') as f:
            f.write('\n'.join(json.dumps(x) for x in facts[k::n]) + '\n')
        envs.append({'FACTS': p})
    out, gen, dis, _ = tlc.sharded(dir, 'Static', STATIC_CFG, envs, tag=tag)
    held, broken = set(), {}
    for x in out:
        if x.startswith('HOLDS '):
            held.add(int(x.split()[1]))
        elif x.startswith('BROKEN '):
            _, k, e = x.split(' ', 2)
            broken[int(k)] = json.loads(e)
    if len(held) + len(broken) != len(facts):
        raise ToolError('Static.tla judged %d of %d facts' % (len(held) + len(broken), len(facts)))
    return broken, gen, dis


def pick(progs, n, rng):
    """n of the programs, every kind of variation among them"""
    import re
    by = {}
    for p in progs:
        by.setdefault(re.sub(r'\d+', '', p[0].split(': ', 1)[-1]), []).append(p)
    for k in sorted(by):
        rng.shuffle(by[k])
    out = []
    while len(out) < n and any(by.values()):
        for k in sorted(by):
            if by[k]:
                out.append(by[k].pop())
    return out[:n]
