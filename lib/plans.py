"""What each property's check runs, and which disagreements concern it."""
import catalogue as C

EXHAUST, INVALID, NOTYPE, CONTRA, EXCESS = ('buffer_exhaustion', 'validation_failure', 'type_deduction_failure',
                                            'found_contradicting_length', 'excessive_length')


class Mismatch:
    """a recorded call the specification does not allow"""

    def __init__(self, record, session, n, call, aspects, exp, source):
        self.record, self.session, self.n, self.call, self.exp, self.source = record, session, n, call, exp, source
        self.d = set(aspects)
        self.op = call['op']
        self.ok, self.r, self.at = call['ok'], call['r'], call['at']
        self.xok = exp['t'] == 'ok'
        self.xr, self.xat = exp.get('r', ''), exp.get('at', '')

    def either(self, reason):
        return self.r == reason or self.xr == reason

    def describe(self):
        got = 'ok' if self.ok else '%s at "%s"' % (self.r, self.at)
        want = 'ok' if self.xok else '%s at "%s"' % (self.xr, self.xat)
        return '%s, call %d (%s, %s): got %s, the specification says %s; differs in: %s' % (
            self.record, self.n + 1, 'write' if self.op == 'W' else 'read',
            'big-endian' if self.call['be'] else 'little-endian', got, want, ', '.join(sorted(self.d)))


class Plan:
    """schemas: predicate (name, tags); sessions: {generator: runs per schema};
    mc: kinds of exhaustive jobs; laws: which; relevant: Mismatch -> bool"""

    def __init__(self, schemas, sessions, mc, relevant, laws=(), budget=60, kinds=(0, 1), big=(), extra=(), flags=(),
                 rejected=False, kinds_mask=None, opt='-O0', bulk='', random=12):
        self.schemas, self.sessions, self.mc, self.relevant, self.laws = schemas, sessions, mc, relevant, laws
        self.budget, self.kinds, self.big, self.extra, self.flags = budget, kinds, big, extra, flags
        self.rejected, self.opt, self.bulk, self.random = rejected, opt, bulk.split(), random
        if bulk:
            self.extra = tuple(self.extra) + ('bulk',)
            self.schemas = lambda n, t: schemas(n, t) or 'bulk' in t
        self.mask = kinds_mask or sum(1 << k for k in kinds)


def tagged(*tags):
    want = set(tags)
    return lambda n, t: bool(t & want)


def anything(n, t):
    return True


def sample(k, of, always=()):
    """every of-th schema, starting with the k-th, and the ones that carry a tag"""
    names = [r.name for r, _ in C.ALL]
    want = set(always)
    return lambda n, t: 'random' in t or names.index(n) % of == k or bool(t & want)


BIG = (255, 256, 257, 1000, 4096, 5000)
HUGE = BIG + (127, 128, 300, 4095, 4097, 8192, 32767, 32768, 65535, 65536, 70000)

PLANS = {}


def plan(id, *a, **k):
    PLANS[id] = Plan(*a, **k)


plan('C01', sample(0, 2, ('narrow', 'deep', 'shared', 'big', 'mix', 'maybe', 'match')),
     {'write_read': 14, 'stale_write': 10, 'read_back': 14, 'read_bytes': 0}, ['write', 'near'],
     lambda m: False, laws=('roundtrip', 'writeback'), big=BIG, bulk='roundtrip')
plan('C02', sample(1, 2, ('plain', 'narrow', 'deep', 'wide', 'big', 'arr')), {'write_read': 16, 'stale_write': 8}, ['write'],
     lambda m: m.op == 'W' and m.ok and 'layout' in m.d, big=BIG, bulk='layout')
plan('C03', sample(0, 2, ('plain', 'narrow', 'deep', 'wide', 'big', 'arr')), {'write_read': 8, 'read_bytes': 16}, ['near', 'read'],
     lambda m: m.op == 'R' and ((m.xok and m.d & {'verdict', 'values', 'position', 'exception'})
                                or (m.ok and m.xr == EXHAUST)), big=BIG, bulk='decode')
plan('C04', lambda n, t: bool(t & {'plain', 'narrow', 'arr', 'float', 'deep', 'big', 'mix', 'signed', 'rec', 'frozen'}) or n in (
    'un_tags', 'un_wide', 'op_bits', 'op_narrow', 'cl_maybe', 'cl_union', 'cp_mul', 'la_two', 'xx_disc64'),
     {'write_read': 14, 'read_bytes': 8, 'stale_write': 4}, ['write', 'near'],
     lambda m: (m.op == 'W' and m.ok and 'layout' in m.d) or
     (m.op == 'R' and m.xok and m.d & {'verdict', 'values'}), big=(255, 256, 1000), bulk='layout decode')
plan('C05', sample(1, 2, ('maybe', 'match', 'rec', 'big', 'deep', 'condlen', 'bound')), {'cuts': 3, 'read_bytes': 4}, ['cut', 'read'],
     lambda m: m.op == 'R' and (m.xr == EXHAUST or (m.r == EXHAUST and m.session.tag in ('cut', 'mc_cut'))),
     kinds=(0, 1, 2), big=BIG, bulk='cut')
plan('C06', sample(0, 2, ('con', 'rec', 'deep', 'condlen', 'match', 'big', 'shared')), {'refused_write': 14, 'write_read': 12, 'stale_write': 4},
     ['refuse', 'write'],
     lambda m: m.op == 'W' and ((not m.ok and not m.xok and 'bytes' in m.d) or m.either(EXHAUST)), kinds=(0, 1, 2), big=BIG, bulk='refuse')
plan('C07', tagged('con', 'mix', 'frozenish', 'frozen', 'bool'), {'write_read': 40, 'read_bytes': 40, 'stale_write': 12}, ['write', 'near', 'read'],
     lambda m: m.either(INVALID) and m.d & {'verdict', 'reason'}, budget=200, random=20)
plan('C08', lambda n, t: 'derived' in t, {'write_read': 24, 'stale_write': 40}, ['write', 'frames'],
     lambda m: m.op == 'W' and m.d & {'verdict', 'reason', 'field', 'bytes', 'exception'}, big=HUGE, budget=100, random=20)
plan('C09', tagged('condlen', 'comp'), {'write_read': 60, 'stale_write': 40}, ['write'],
     lambda m: m.op == 'W' and m.d & {'verdict', 'reason', 'field', 'bytes', 'exception'}, budget=400, random=20)
plan('C10', tagged('match'), {'write_read': 24, 'stale_write': 32, 'read_bytes': 32}, ['write', 'near', 'read'],
     lambda m: m.d & {'verdict', 'reason', 'field', 'bytes', 'position', 'values', 'exception'}, budget=100, random=20)
plan('C11', lambda n, t: bool(t & {'ladder', 'compute'}), {'write_read': 60, 'stale_write': 60, 'read_bytes': 60},
     ['write', 'near', 'read'],
     lambda m: m.d & {'verdict', 'reason', 'field', 'bytes', 'position', 'values', 'exception'}, budget=400, random=20)
plan('C12', tagged('maybe'), {'write_read': 32, 'stale_write': 32, 'read_bytes': 32}, ['write', 'near', 'read'],
     lambda m: m.d & {'verdict', 'reason', 'field', 'bytes', 'position', 'values', 'exception'}, budget=150, extra=('known',), random=20)
plan('C13', tagged('bound'), {'read_bytes': 60, 'lengths': 60, 'write_read': 20}, ['near', 'read', 'write'],
     lambda m: m.either(EXCESS) or m.d & {'allocation', 'exception'}, budget=200, extra=('default_bound',), random=20)
plan('C14', sample(0, 3, ('con', 'rec', 'deep', 'wide', 'bound', 'ladder', 'ids', 'condlen')),
     {'write_read': 14, 'stale_write': 8, 'read_bytes': 14, 'refused_write': 5, 'cuts': 1}, ['write', 'near'],
     lambda m: not m.ok and m.d & {'verdict', 'reason', 'field'}, bulk='cut refuse')
plan('C15', tagged('frozen', 'frozenish'), {'write_read': 40, 'stale_write': 60, 'read_bytes': 60}, ['write', 'near', 'read'],
     lambda m: m.d & {'verdict', 'reason', 'field', 'bytes', 'values', 'exception'}, budget=200, random=20)
plan('C16', anything, {'write_read': 3}, [], lambda m: 'assigned' in m.d, extra=('access',), rejected=True)
plan('C17', anything, {'write_read': 1}, [], lambda m: False, extra=('programs',), rejected=True)
plan('C18', sample(2, 4, ('mix', 'wide', 'carr', 'float', 'deep')), {'write_read': 10, 'stale_write': 4, 'read_bytes': 12, 'refused_write': 4},
     [], lambda m: False, laws=('same',), kinds=(0, 1, 2, 3, 4, 5, 6), rejected=True, extra=('constant',), big=(256, 1000), bulk='same')
plan('C19', sample(3, 4, ('mix', 'deep', 'derived', 'frozen')), {'frames': 10, 'through': 12, 'refused_write': 4}, ['frames'],
     lambda m: 'mutated' in m.d, laws=('alone', 'frames'), kinds=(0, 1, 2), bulk='frames', extra=('together',))
plan('C20', sample(1, 3, ('bound', 'vrec', 'comp', 'deep', 'match', 'bool')), {'read_bytes': 30, 'lengths': 10, 'write_read': 8, 'cuts': 1}, ['near'],
     lambda m: m.d & {'exception', 'allocation'} or (m.op == 'R' and m.ok and m.xr in (INVALID, NOTYPE, EXCESS))
     or (m.op == 'R' and m.r in (CONTRA, '?')) or (m.op == 'W' and m.r in (EXCESS, '?')),
     flags=('-fsanitize=address,undefined', '-fno-sanitize-recover=all'), big=BIG, bulk='decode cut')
