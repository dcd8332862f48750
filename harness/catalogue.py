"""The schemas the checks run. Tags say which behaviour a schema exercises."""
from dsl import *

ALL = []          # (record, set of tags), in declaration order


def S(name, tags, *fields):
    assert all(name != q.name for q, _ in ALL), name
    r = Record(name, *fields)
    ALL.append((r, set(tags.split())))
    return r


L = FromField
Lf = FromFn

# ---- scalars: every type, every width ------------------------------------
S('sc_full', 'scalar plain', Scalar('a', 'u8'), Scalar('b', 'u16'), Scalar('c', 'u32'), Scalar('d', 'u64'),
  Scalar('e', 'i8'), Scalar('f', 'i16'), Scalar('g', 'i32'), Scalar('h', 'i64'))
S('sc_default', 'scalar plain', Scalar('a', 'u16', explicit=False), Scalar('b', 'i64', explicit=False),
  Scalar('c', 'char', explicit=False))
S('sc_narrow', 'scalar narrow', Scalar('a', 'u16', 1), Scalar('b', 'u32', 3), Scalar('c', 'u32', 2),
  Scalar('d', 'u64', 5), Scalar('e', 'u64', 3), Scalar('f', 'u32', 1))
S('sc_narrow_signed', 'scalar narrow', Scalar('a', 'i16', 1), Scalar('b', 'i32', 3), Scalar('c', 'i64', 6),
  Scalar('d', 'i32', 2))

S('sc_other', 'scalar plain', Scalar('a', 'char8_t'), Scalar('b', 'char16_t'), Scalar('c', 'char32_t'), Scalar('d', 'wchar_t'), Scalar('e', 'slong'),
  Scalar('f', 'ulong'), Scalar('g', 'char'))
S('sc_other_narrow', 'scalar narrow', Scalar('a', 'char16_t', 1), Scalar('b', 'char32_t', 3), Scalar('c', 'ulong', 5), Scalar('d', 'wchar_t', 2))

# ---- arrays and fixed strings ---------------------------------------------
S('ar_basic', 'arr plain', Arr('a', 'u8', 3), Arr('b', 'u16', 3), Arr('c', 'u32', 2), Arr('d', 'i64', 2),
  Arr('e', 'i16', 1))
S('ar_float', 'arr plain float', Arr('a', 'f32', 2), Arr('b', 'f64', 2), Scalar('z', 'u16'))
S('ar_multi', 'arr plain', Arr('a', 'u16', 2, inner=(3,)), Arr('b', 'u8', 2, inner=(2,)),
  Arr('c', 'u32', 2, inner=(2, 2)))
S('ar_c', 'arr plain carr', Arr('a', 'u16', 3, form='carr'), Arr('b', 'u8', 4, form='carr'),
  Arr('c', 'u32', 2, form='carr'), Arr('s', 'char', 3, form='cstr'))
S('ar_types', 'arr plain', Arr('a', 'char', 4), Arr('b', 'char8_t', 3), Arr('c', 'i8', 3), Arr('d', 'i32', 2), Arr('e', 'u64', 2), Arr('f', 'wchar_t', 2),
  Arr('g', 'char', 2, inner=(3,)), Arr('h', 'i16', 2, inner=(2,)), Arr('i', 'f64', 1, inner=(2,)))
S('ar_ctypes', 'arr plain carr', Arr('a', 'i8', 3, form='carr'), Arr('b', 'i16', 3, form='carr'), Arr('c', 'i32', 2, form='carr'), Arr('d', 'i64', 2, form='carr'),
  Arr('e', 'f32', 2, form='carr'), Arr('f', 'f64', 2, form='carr'), Arr('g', 'char', 3, form='carr'), Arr('h', 'char16_t', 2, form='carr'))
S('ar_vtypes', 'arr len derived plain', Scalar('n', 'u8'), Vec('a', 'i16', L('n')), Scalar('m', 'u8'), Vec('b', 'u64', L('m')), Scalar('o', 'u8'), Vec('c', 'f64', L('o')),
  Scalar('p', 'u8'), Vec('d', 'char', L('p')), Scalar('q', 'u8'), Vec('e', 'i64', L('q')), Scalar('r', 'u8'), Vec('f', 'f32', L('r')), Scalar('s', 'u8'), Vec('g', 'char32_t', L('s')))
S('ar_utypes', 'arr match condlen', Scalar('n', 'u8'), Scalar('t', 'u8'), Union('u', Match('t', [1, 2, 3, 4, 5, 6]), [
  Arr('', 'char', 3), Arr('', 'i32', 2), Arr('', 'f32', 2), Vec('', 'i64', L('n')), Vec('', 'char', L('n')), Vec('', 'f64', L('n'))]), Scalar('z', 'u8'))
S('ar_otypes', 'arr maybe condlen', Scalar('n', 'u8'), Scalar('f', 'u8'), Maybe(Arr('a', 'char', 3), lt(num('f'), 9)), Maybe(Arr('b', 'i32', 2), gt(num('f'), 3)),
  Maybe(Vec('c', 'i64', L('n')), lt(num('f'), 5)), Maybe(Vec('d', 'char', L('n')), gt(num('f'), 7)))
S('ar_str', 'arr plain', Scalar('p', 'u16'), Arr('a', 'char', 3, form='fstr'), Scalar('q', 'u16'))

# ---- frozen fields ---------------------------------------------------------
S('fz_num', 'frozen', Scalar('m', 'u32', magic=0x01020304), Scalar('n', 'u16', 2, magic=0xCAFE),
  Scalar('v', 'u16'))
S('fz_narrow', 'frozen narrow', Scalar('m', 'u32', 3, magic=0x010203), Scalar('n', 'u64', 5, magic=0x0102030405),
  Scalar('v', 'u8'))
S('fz_signed', 'frozen', Scalar('m', 'i16', magic=-2), Scalar('n', 'i32', con=Cmp('eq', -70000)),
  Scalar('k', 'i8', magic=-1), Scalar('v', 'u16'))
S('fz_bytes', 'frozen', Arr('m', 'u8', 3, form='magicbytes', magic=[1, 2, 0xff]),
  Arr('s', 'char', 3, form='magicstr', magic=[ord('P'), ord('K'), ord('T'), 0]), Scalar('v', 'u32'))
S('fz_eq', 'frozen con', Scalar('a', 'u32', con=Cmp('eq', 7, '7')), Scalar('b', 'u16', con=Cmp('eq', 300, '300u')),
  Arr('c', 'u8', 2, con=Cmp('eq', [9, 8])), Scalar('d', 'u8', con=Cmp('eq', 5, '5ll')),
  Arr('e', 'u16', 2, con=Cmp('eq', [1, 2, 3, 4])))
S('fz_str', 'frozen', Arr('a', 'char', 2, form='fstr', con=Cmp('eq', [65, 66, 0])), Scalar('v', 'u8'))
S('fz_last', 'frozen', Scalar('v', 'u16'), Scalar('m', 'u64', magic=0x1122334455667788))

# ---- constraints -----------------------------------------------------------
S('co_cmp', 'con', Scalar('a', 'u16', con=Cmp('lt', 0x0102)), Scalar('b', 'u16', con=Cmp('gt', 0x00ff)),
  Scalar('c', 'u32', con=Cmp('lte', 0x10000)), Scalar('d', 'u32', con=Cmp('gte', 0x100)),
  Scalar('e', 'u8', con=Cmp('neq', 0x7f)), Scalar('f', 'u16', con=Any([1, 2, 0x0100])))
S('co_signed', 'con', Scalar('a', 'i16', con=Cmp('lt', 0)), Scalar('b', 'i32', con=Cmp('gte', -5)),
  Scalar('c', 'i64', con=Cmp('gt', -2 ** 40)), Scalar('d', 'i8', con=Any([-1, 0, 1])),
  Scalar('e', 'i16', con=Cmp('lte', -300)), Scalar('f', 'i32', con=Cmp('neq', -1)))
S('co_spelled', 'con', Scalar('a', 'u8', con=Cmp('lte', 200, '200')), Scalar('b', 'u16', con=Cmp('lt', 70000, '70000')),
  Scalar('c', 'i8', con=Cmp('gt', -100, '-100')), Scalar('d', 'i32', con=Cmp('lt', 3000000000, '3000000000u')),
  Scalar('e', 'u8', con=Any([1, 250], ['1', '250'])), Scalar('f', 'i16', con=Cmp('gte', -3, '-3ll')),
  Scalar('g', 'i8', con=Cmp('lt', 200, '200u')))
S('co_wide', 'con', Scalar('a', 'u64', con=Cmp('gte', 2 ** 63)), Scalar('b', 'u64', con=Cmp('lt', 2 ** 40 + 1)),
  Scalar('c', 'i64', con=Cmp('lte', -2 ** 33)))
S('co_narrow', 'con narrow', Scalar('a', 'u32', 2, con=Cmp('lte', 0x1234)), Scalar('b', 'u64', 3, con=Cmp('gt', 0xffff)),
  Scalar('c', 'u16', 1, con=Cmp('neq', 0), order=['con', 'size']))
S('co_arr', 'con arr', Arr('a', 'u8', 3, con=Cmp('neq', [0, 0, 0])), Arr('b', 'u8', 2, con=Cmp('lt', [2, 3])),
  Arr('c', 'char', 2, form='fstr', con=Any([[65, 66, 0], [67, 68, 0]])), Arr('d', 'u8', 2, con=Fn(lt(byt('$', 1), 10))))
S('co_vec', 'con len', Scalar('n', 'u8'), Vec('v', 'u8', L('n'), con=Fn(eq(mod(cnt('$'), 2), 0))),
  Scalar('k', 'u8'), Vec('s', 'char', L('k'), form='str', con=Fn(ne(byt('$', 0), 0x41))))
S('co_len', 'con len derived', Scalar('n', 'u8', con=Cmp('lte', 3)), Vec('v', 'u16', L('n')), Scalar('t', 'u8'))
S('co_len2', 'con len derived', Scalar('n', 'u16', con=Any([0, 2, 4])), Scalar('x', 'u16'), Vec('v', 'u8', L('n')))
_in = Record('co_in', Scalar('x', 'u8'), Scalar('y', 'u16', con=Cmp('lt', 500)))
S('co_rec', 'con rec', Scalar('a', 'u8'), Rec('r', _in, con=Fn(lt(sub('$', 1, 'x'), 9))), Scalar('b', 'u8', con=Cmp('gt', 3)))
S('co_fn', 'con', Scalar('a', 'u16', con=Fn(eq(mod(num('$'), 3), 0))), Scalar('b', 'i32', con=Fn(gt(num('$'), 5))))

# ---- derived lengths ---------------------------------------------------------
S('le_u8', 'len derived', Scalar('n', 'u8'), Vec('v', 'u8', L('n')))
S('le_u16', 'len derived', Scalar('n', 'u16'), Vec('v', 'u16', L('n')), Scalar('z', 'u8'))
S('le_u32', 'len derived', Scalar('n', 'u32'), Vec('v', 'u32', L('n')))
S('le_u64', 'len derived', Scalar('n', 'u64'), Vec('v', 'i64', L('n')))
S('le_signed', 'len derived signed', Scalar('n', 'i8'), Vec('v', 'u8', L('n')), Scalar('m', 'i32'), Vec('w', 'u16', L('m')))
S('le_narrow', 'len derived narrow', Scalar('n', 'u32', 3), Vec('v', 'u8', L('n')), Scalar('m', 'u16', 1), Vec('w', 'u8', L('m')))
S('le_str', 'len derived', Scalar('n', 'u16'), Vec('s', 'char', L('n'), form='str'))
S('le_shared', 'len derived shared', Scalar('n', 'u8'), Vec('v', 'u8', L('n')), Vec('w', 'u16', L('n')))
S('le_shared3', 'len derived shared', Scalar('n', 'u16'), Scalar('x', 'u8'), Vec('v', 'u8', L('n')),
  Vec('s', 'char', L('n'), form='str'), Scalar('y', 'u8'), Vec('w', 'u32', L('n')))
S('le_far', 'len derived', Scalar('n', 'u8'), Scalar('m', 'u16'), Scalar('x', 'u32'), Vec('w', 'u16', L('m')), Scalar('y', 'u8'),
  Vec('v', 'u8', L('n')))
S('le_cross', 'len derived', Scalar('n', 'u8'), Scalar('m', 'u8'), Vec('v', 'u8', L('m')), Vec('w', 'u16', L('n')))
S('le_float', 'len derived float', Scalar('n', 'u8'), Vec('v', 'f64', L('n')), Scalar('m', 'u8'), Vec('w', 'f32', L('m')))
S('le_arr', 'len derived', Scalar('n', 'u8'), Vec('v', 'u16', L('n'), inner=(2,)), Scalar('z', 'u8'))
S('le_frozen', 'len derived frozen', Scalar('n', 'u8', con=Cmp('eq', 3)), Vec('v', 'u16', L('n')))
S('le_frozen_num', 'len derived frozen', Scalar('n', 'u32', 2, magic=2), Vec('v', 'u8', L('n')), Scalar('z', 'u16'))

# ---- nested records ---------------------------------------------------------
_pt = Record('pt', Scalar('x', 'u16'), Scalar('y', 'i16'))
_lv = Record('lv', Scalar('n', 'u8'), Vec('v', 'u16', L('n')))
_mg = Record('mg', Scalar('m', 'u16', magic=0xBEEF), Scalar('x', 'u8'))
_deep = Record('deep', Scalar('a', 'u8'), Rec('p', _pt), Rec('l', _lv))
S('re_one', 'rec plain', Scalar('a', 'u8'), Rec('p', _pt), Scalar('z', 'u16'))
S('re_deep', 'rec len derived', Rec('d', _deep), Scalar('z', 'u32'))
S('re_arr', 'rec arec', Scalar('a', 'u8'), ARec('ps', _pt, 3), Scalar('z', 'u8'))
S('re_arr_len', 'rec arec len derived', ARec('ls', _lv, 2), Scalar('z', 'u16'))
S('re_vec', 'rec vrec len derived', Scalar('n', 'u8'), VRec('ps', _pt, L('n')), Scalar('z', 'u16'))
S('re_vec_len', 'rec vrec len derived', Scalar('n', 'u16'), VRec('ls', _lv, L('n')), Scalar('z', 'u8'))
S('re_magic', 'rec frozen', Rec('m', _mg), ARec('ms', _mg, 2), Scalar('n', 'u8'), VRec('vs', _mg, L('n')))
_vv = Record('vv', Scalar('n', 'u8'), VRec('ps', _pt, L('n')), Scalar('q', 'u8', con=Cmp('lt', 100)))
S('re_vec2', 'rec vrec len derived con', Scalar('n', 'u8'), VRec('vs', _vv, L('n')), Arr('t', 'u16', 2))
S('re_sameid', 'rec len derived', Scalar('n', 'u8'), Rec('p', _lv), Vec('v', 'u8', L('n')))
_d3 = Record('d3', Rec('e', _deep), Scalar('t', 'u16'))
S('re_deep3', 'rec len derived', Scalar('a', 'u16'), Rec('d', _d3), Scalar('z', 'u16'))
S('re_con', 'rec con', ARec('cs', _in, 2, con=None), Scalar('n', 'u8'), VRec('vs', _in, L('n')), Scalar('z', 'u8', con=Cmp('neq', 0)))

# ---- optionals ---------------------------------------------------------------
S('op_basic', 'maybe', Scalar('f', 'u8'), Maybe(Scalar('a', 'u16'), eq(num('f'), 1)), Scalar('z', 'u8'))
S('op_bits', 'maybe', Scalar('f', 'u8'), Maybe(Scalar('a', 'u32'), eq(mod(num('f'), 2), 1)),
  Maybe(Arr('b', 'u16', 2), gt(mod(num('f'), 4), 1)), Maybe(Scalar('c', 'i16'), gt(num('f'), 3)))
S('op_always', 'maybe', Maybe(Scalar('a', 'u16'), true, always=True), Scalar('z', 'u8'))
S('op_narrow', 'maybe narrow', Scalar('f', 'u8'), Maybe(Scalar('a', 'u32', 3), eq(num('f'), 1)))
S('op_rec', 'maybe rec', Scalar('f', 'u8'), Maybe(Rec('r', _pt), eq(num('f'), 1)), Maybe(ARec('rs', _mg, 2), eq(num('f'), 2)),
  Scalar('z', 'u16'))
S('op_str', 'maybe arr', Scalar('f', 'u8'), Maybe(Arr('s', 'char', 3, form='fstr'), gt(num('f'), 0)),
  Maybe(Arr('b', 'u8', 2), gt(num('f'), 1)))
S('op_two', 'maybe', Scalar('f', 'u8'), Scalar('g', 'u16'), Maybe(Scalar('a', 'u16'), lt(num('f'), num('g'))),
  Maybe(Scalar('b', 'u8'), and_(eq(num('f'), 2), gt(num('g'), 256))))
S('op_chain', 'maybe', Scalar('f', 'u8'), Maybe(Scalar('a', 'u8'), eq(num('f'), 1)),
  Maybe(Scalar('b', 'u16'), has('a')), Maybe(Scalar('c', 'u8'), eq(onum('a'), 5)))
S('op_len', 'maybe len derived', Scalar('n', 'u8'), Vec('v', 'u8', L('n')), Maybe(Scalar('a', 'u16'), gt(num('n'), 2)),
  Maybe(Scalar('b', 'u8'), gt(cnt('v'), 3)))
S('op_before_len', 'maybe len derived', Scalar('n', 'u8'), Maybe(Scalar('a', 'u16'), eq(num('n'), 0)), Vec('v', 'u16', L('n')))
S('op_frozen', 'maybe frozen', Scalar('m', 'u8', magic=3), Maybe(Scalar('a', 'u16'), eq(num('m'), 3)),
  Maybe(Scalar('b', 'u16'), eq(num('m'), 4)))
S('op_arr', 'maybe arr', Arr('k', 'u8', 2), Maybe(Scalar('a', 'u16'), eq(byt('k', 1), 1)))
S('op_rec_pred', 'maybe rec', Rec('p', _pt), Maybe(Scalar('a', 'u8'), lt(sub('p', 1, 'x'), 256)))
S('op_compute_len', 'maybe comp', Scalar('w', 'u8'), Scalar('f', 'u8'), Maybe(Vec('v', 'u8', Lf(num('w'))), eq(num('f'), 1)),
  Scalar('z', 'u8'))
S('op_eval', 'maybe', Scalar('f', 'u16'), Maybe(Scalar('a', 'u8'), gt(num('f'), 255), spelling='predicate'),
  Maybe(Scalar('b', 'u8'), lt(num('f'), 255), spelling='eval_bool_from_fields'))

# ---- lengths under a condition -------------------------------------------------
S('cl_maybe', 'condlen maybe', Scalar('f', 'u8'), Scalar('n', 'u8'), Maybe(Vec('v', 'u16', L('n')), eq(num('f'), 1)))
S('cl_maybe_first', 'condlen maybe', Scalar('n', 'u16'), Scalar('f', 'u8'), Maybe(Vec('v', 'char', L('n'), form='str'), eq(num('f'), 1)),
  Scalar('z', 'u16'))
S('cl_maybe_rec', 'condlen maybe vrec', Scalar('f', 'u8'), Scalar('n', 'u8'), Maybe(VRec('v', _pt, L('n')), eq(num('f'), 1)))
S('cl_two', 'condlen maybe', Scalar('f', 'u8'), Scalar('n', 'u8'), Maybe(Vec('v', 'u8', L('n')), eq(mod(num('f'), 2), 1)),
  Maybe(Vec('w', 'u16', L('n')), gt(num('f'), 1)))
S('cl_derived', 'condlen maybe len derived', Scalar('f', 'u8'), Scalar('n', 'u8'), Vec('v', 'u8', L('n')),
  Maybe(Vec('w', 'u16', L('n')), eq(num('f'), 1)))
S('cl_frozen', 'condlen maybe frozen', Scalar('f', 'u8'), Scalar('n', 'u8', con=Cmp('eq', 2)),
  Maybe(Vec('v', 'u16', L('n')), eq(num('f'), 1)))
S('cl_union', 'condlen match', Scalar('n', 'u8'), Scalar('t', 'u8'),
  Union('u', Match('t', [1, 2, 3]), [Vec('', 'u8', L('n')), Scalar('', 'u32'), Vec('', 'char', L('n'), form='str')]))
S('cl_union_rec', 'condlen match vrec', Scalar('t', 'u8'), Scalar('n', 'u16'),
  Union('u', Match('t', [7, 9]), [VRec('', _pt, L('n')), Vec('', 'u16', L('n'))]), Scalar('z', 'u8'))
S('cl_ladder', 'condlen ladder', Scalar('n', 'u8'), Scalar('s', 'u8'),
  Union('u', Ladder([eq(num('s'), 1), eq(num('s'), 2)]), [Vec('', 'u16', L('n')), Scalar('', 'u16')]))
S('cl_self', 'condlen maybe', Scalar('n', 'u8'), Maybe(Vec('v', 'u8', L('n')), gt(num('n'), 0)), Scalar('z', 'u8'))
S('cl_con', 'condlen maybe con', Scalar('f', 'u8'), Scalar('n', 'u8', con=Cmp('lt', 4)), Maybe(Vec('v', 'u8', L('n')), eq(num('f'), 1)))
S('cl_narrow', 'condlen maybe narrow', Scalar('f', 'u8'), Scalar('n', 'u32', 2), Maybe(Vec('v', 'u8', L('n')), eq(num('f'), 1)))
S('cl_signed', 'condlen maybe signed', Scalar('f', 'u8'), Scalar('n', 'i8'), Maybe(Vec('v', 'u8', L('n')), eq(num('f'), 1)))

# ---- computed lengths ----------------------------------------------------------
S('cp_mul', 'comp', Scalar('w', 'u8'), Scalar('h', 'u8'), Vec('p', 'u16', Lf(mul(num('w'), num('h')))))
S('cp_add', 'comp', Scalar('a', 'u16'), Scalar('x', 'u32'), Vec('v', 'u8', Lf(add(num('a'), 1))), Scalar('z', 'u8'))
S('cp_str', 'comp', Scalar('a', 'u8'), Vec('s', 'char', Lf(num('a'), 'size_from_fields'), form='str'), Scalar('z', 'u16'))
S('cp_rec', 'comp vrec', Scalar('a', 'u8'), Scalar('b', 'u8'), VRec('v', _pt, Lf(add(num('a'), num('b')))))
S('cp_const', 'comp', Scalar('a', 'u8'), Vec('v', 'u16', Lf(const(3))))
S('cp_derived', 'comp len derived', Scalar('n', 'u8'), Vec('v', 'u8', L('n')), Vec('w', 'u16', Lf(add(num('n'), 1))))
S('cp_cnt', 'comp len derived', Scalar('n', 'u8'), Vec('v', 'u16', L('n')), Vec('w', 'u8', Lf(mul(cnt('v', 2), 2))))
S('cp_frozen', 'comp frozen', Scalar('m', 'u8', magic=2), Scalar('a', 'u8'), Vec('w', 'u16', Lf(mul(num('m'), num('a')))))
S('cp_union', 'comp match', Scalar('t', 'u8'), Scalar('a', 'u8'),
  Union('u', Match('t', [1, 2]), [Vec('', 'u8', Lf(mul(num('a'), 2))), Scalar('', 'u16')]))
S('cp_tag', 'comp match', Scalar('t', 'u8'), Union('u', Match('t', [1, 2]), [Scalar('', 'u8'), Scalar('', 'u16')]),
  Vec('v', 'u8', Lf(num('t'))), Scalar('z', 'u8'))
S('cp_opt', 'comp maybe', Scalar('f', 'u8'), Maybe(Scalar('a', 'u8'), eq(num('f'), 1)), Vec('v', 'u8', Lf(onum('a'))))

# ---- unions by discriminant ------------------------------------------------------
S('un_triv', 'match', Scalar('t', 'u8'), Union('u', Match('t', [1, 2, 3]), [Scalar('', 'u32'), Scalar('', 'i32'), Scalar('', 'u8')]),
  Scalar('z', 'u8'))
S('un_tags', 'match', Scalar('t', 'u16'), Union('u', Match('t', [0, 0x0100, 0x0001, 7, 8]), [
  Scalar('', 'u16'), Arr('', 'u16', 2), Rec('', _pt), Arr('', 'char', 2, form='fstr'), ARec('', _mg, 2)]), Scalar('z', 'u16'))
S('un_neg', 'match signed', Scalar('t', 'i16'), Union('u', Match('t', [-1, 0, 300]), [Scalar('', 'u16'), Scalar('', 'u8'), Scalar('', 'u32')]))
S('un_wide', 'match', Scalar('t', 'u32'), Union('u', Match('t', [0xDEADBEEF, 0x1, 0x01000000], ['0xDEADBEEFu', '1u', '0x01000000u']),
  [Scalar('', 'u16'), Scalar('', 'u8'), Scalar('', 'i16')]))
S('un_far', 'match', Scalar('t', 'u8'), Scalar('a', 'u16'), Arr('b', 'u8', 2), Union('u', Match('t', [5, 6]), [Scalar('', 'u64'), Scalar('', 'u16')]))
S('un_two', 'match', Scalar('t', 'u8'), Scalar('k', 'u8'), Union('u', Match('t', [1, 2]), [Scalar('', 'u16'), Scalar('', 'u8')]),
  Union('w', Match('k', [3, 4]), [Scalar('', 'u8'), Arr('', 'u8', 3)]))
S('un_shared', 'match shared', Scalar('t', 'u8'), Union('u', Match('t', [1, 2]), [Scalar('', 'u16'), Scalar('', 'u8')]),
  Union('w', Match('t', [1, 2]), [Arr('', 'u8', 3), Scalar('', 'u32')]))
S('un_narrow', 'match narrow', Scalar('t', 'u32', 2), Union('u', Match('t', [0x0102, 3]), [Scalar('', 'u32', 3), Scalar('', 'u16')]))
S('un_con', 'match con', Scalar('t', 'u8', con=Cmp('lte', 2)), Union('u', Match('t', [1, 2, 3]), [
  Scalar('', 'u32', con=Cmp('lte', 99)), Scalar('', 'u16', con=Cmp('neq', 0)), Scalar('', 'u8')]))
S('un_eq_alt', 'match con frozenish', Scalar('t', 'u8'), Union('u', Match('t', [1, 2]), [
  Scalar('', 'u16', con=Cmp('eq', 77)), Arr('', 'u8', 2, con=Cmp('eq', [1, 2]))]))
S('un_own_con', 'match con', Scalar('t', 'u8'), Union('u', Match('t', [1, 2]), [Scalar('', 'u16'), Scalar('', 'u8', con=Cmp('lt', 9))],
  con=Fn(lt(ix('$'), 3))), Scalar('z', 'u8'))
S('un_own_con2', 'match con', Scalar('t', 'u8'), Union('u', Match('t', [1, 2, 4]), [Scalar('', 'u16'), Scalar('', 'u8'), Scalar('', 'i32')],
  con=Fn(ne(ix('$'), 2))), Scalar('z', 'u8'))
S('un_len_disc', 'match len derived', Scalar('t', 'u8'), Vec('v', 'u8', L('t')), Union('u', Match('t', [1, 2]), [Scalar('', 'u16'), Scalar('', 'u8')]))
S('un_frozen_disc', 'match frozen', Scalar('t', 'u8', con=Cmp('eq', 2)), Union('u', Match('t', [1, 2]), [Scalar('', 'u16'), Scalar('', 'u8')]))
S('un_rec_con', 'match rec con', Scalar('t', 'u8'), Union('u', Match('t', [1, 2]), [Rec('', _in, con=Fn(lt(sub('$', 1, 'x'), 9))), Rec('', _lv)]))
S('un_vec', 'match condlen', Scalar('t', 'u8'), Scalar('n', 'u8'), Union('u', Match('t', [1, 2]), [
  Vec('', 'u16', L('n'), con=Fn(eq(mod(cnt('$', 2), 2), 0)), order=['con', 'len']), Vec('', 'u8', L('n'))]))
S('un_float', 'match float', Scalar('t', 'u8'), Union('u', Match('t', [1, 2]), [Scalar('', 'f32'), Scalar('', 'f64')]))
S('un_maybe_tag', 'match maybe', Scalar('t', 'u8'), Maybe(Scalar('a', 'u16'), eq(num('t'), 1)), Union('u', Match('t', [1, 2]), [Scalar('', 'u16'), Scalar('', 'u8')]),
  Maybe(Scalar('b', 'u8'), eq(ix('u'), 2)))
_un = Record('unr', Scalar('t', 'u8'), Union('u', Match('t', [1, 2]), [Scalar('', 'u16'), Rec('', _lv)]))
S('un_nested', 'match rec vrec', Scalar('n', 'u8'), VRec('us', _un, L('n')), Rec('one', _un))
S('un_last', 'match', Scalar('t', 'u16'), Union('u', Match('t', [0x00ff, 0xff00]), [Scalar('', 'u8'), Scalar('', 'u16')]))

# a constraint on every kind of alternative, in every position
_few = Record('few', Scalar('x', 'u8'), Scalar('y', 'u8'))
def _alts(con):
    return [Scalar('', 'u16', con=Cmp('lt', 500) if con else None), Arr('', 'u8', 3, con=Cmp('neq', [0, 0, 0]) if con else None),
            Arr('', 'char', 2, form='fstr', con=Any([[65, 66, 0], [67, 68, 0]]) if con else None),
            Vec('', 'u16', L('n'), con=Fn(lt(cnt('$', 2), 3)) if con else None),
            Vec('', 'char', L('n'), form='str', con=Fn(ne(byt('$', 0), 0x41)) if con else None),
            Rec('', _few, con=Fn(lt(sub('$', 1, 'x'), 9)) if con else None), ARec('', _few, 2, con=Fn(ne(cnt2('$'), 7)) if con else None),
            VRec('', _few, L('n'), con=Fn(lt(cnt2('$'), 3)) if con else None)]
def _pick(*ks):
    return [_alts(k > 0)[abs(k) - 1] for k in ks]
S('ua_all', 'match con condlen vrec arec rec', Scalar('n', 'u8'), Scalar('t', 'u8'), Union('u', Match('t', [1, 2, 3, 4, 5, 6, 7, 8]), _pick(1, 2, 3, 4, 5, 6, 7, 8)), Scalar('z', 'u8'))
S('ua_back', 'match con condlen vrec arec rec', Scalar('n', 'u8'), Scalar('t', 'u8'), Union('u', Match('t', [8, 7, 6, 5, 4, 3, 2, 1]), _pick(8, 7, 6, 5, 4, 3, 2, 1)), Scalar('z', 'u8'))
S('ua_first', 'match con condlen vrec rec', Scalar('n', 'u8'), Scalar('t', 'u16'), Union('u', Match('t', [4, 9]), _pick(8, -1)))
S('ua_last', 'match con condlen vrec', Scalar('n', 'u8'), Scalar('t', 'u16'), Union('u', Match('t', [4, 9]), _pick(-8, 4)))
S('ua_two', 'match con condlen rec', Scalar('n', 'u8'), Scalar('t', 'u8'), Union('u', Match('t', [1, 2, 3]), _pick(-5, 6, -1)), Scalar('z', 'u8'))
S('ua_ladder', 'ladder con condlen vrec rec', Scalar('n', 'u8'), Scalar('t', 'u8'), Union('u', Ladder([eq(num('t'), k) for k in (1, 2, 3, 4)]), _pick(8, 6, 5, 2)), Scalar('z', 'u8'))
S('ua_compute', 'compute con condlen vrec arec rec', Scalar('n', 'u8'), Scalar('t', 'u8'), Union('u', Compute(mod(num('t'), 4), [0, 1, 2, 3]), _pick(4, 7, 8, 3)), Scalar('z', 'u8'))
S('ua_nested', 'match con condlen vrec rec', Scalar('k', 'u8'), VRec('v', Record('uan', Scalar('n', 'u8'), Scalar('t', 'u8'), Union('u', Match('t', [1, 2, 3]), _pick(6, 8, 5))), L('k')), Scalar('z', 'u8'))
S('ma_cons', 'maybe con', Scalar('f', 'u8'), Maybe(Rec('a', _in), eq(mod(num('f'), 2), 1)), Maybe(ARec('b', _in, 2), gt(num('f'), 1)), Scalar('z', 'u8', con=Cmp('gt', 0)))

# ---- unions by predicate or computation -------------------------------------------
S('la_basic', 'ladder', Scalar('n', 'u32'), Union('u', Ladder([lt(num('n'), 5), gt(num('n'), 4)]), [Scalar('', 'u32'), Scalar('', 'i32')]))
S('la_order', 'ladder', Scalar('n', 'u8'), Union('u', Ladder([gt(num('n'), 10), gt(num('n'), 5), lt(num('n'), 3)]),
  [Scalar('', 'u16'), Scalar('', 'u8'), Scalar('', 'u32')]), Scalar('z', 'u8'))
S('la_two', 'ladder', Scalar('a', 'u8'), Scalar('b', 'u16'), Union('u', Ladder([eq(num('a'), num('b')), lt(num('a'), num('b'))]),
  [Arr('', 'u16', 2), Scalar('', 'u8')]))
S('la_len', 'ladder len derived', Scalar('n', 'u8'), Vec('v', 'u8', L('n')), Union('u', Ladder([lt(num('n'), 2), true]), [Scalar('', 'u16'), Scalar('', 'u8')]))
S('la_before_len', 'ladder len derived', Scalar('n', 'u8'), Union('u', Ladder([lt(num('n'), 2), lt(num('n'), 4)]), [Scalar('', 'u16'), Scalar('', 'u8')]), Vec('v', 'u8', L('n')))
S('la_tag', 'ladder match', Scalar('t', 'u8'), Union('w', Match('t', [1, 2]), [Scalar('', 'u8'), Scalar('', 'u16')]),
  Union('u', Ladder([eq(num('t'), 1), eq(ix('w'), 2)]), [Scalar('', 'u32'), Scalar('', 'u8')]))
S('la_frozen', 'ladder frozen', Scalar('m', 'u16', magic=9), Union('u', Ladder([eq(num('m'), 8), eq(num('m'), 9)]), [Scalar('', 'u16'), Scalar('', 'u8')]))
S('la_con', 'ladder con', Scalar('n', 'u8', con=Cmp('lt', 6)), Union('u', Ladder([lt(num('n'), 3), lt(num('n'), 5)]), [
  Scalar('', 'u16', con=Cmp('gt', 9)), Scalar('', 'u8')], con=Fn(lt(ix('$'), 3))))
S('cu_basic', 'compute', Scalar('a', 'u8'), Scalar('b', 'u8'), Union('u', Compute(add(num('a'), num('b')), [1, 2, 3]),
  [Scalar('', 'u16'), Scalar('', 'u8'), Scalar('', 'u32')]), Scalar('z', 'u8'))
S('cu_mod', 'compute', Scalar('a', 'u16'), Union('u', Compute(mod(num('a'), 3), [0, 2]), [Scalar('', 'u16'), Arr('', 'u8', 3)]))
S('cu_len', 'compute len derived', Scalar('n', 'u8'), Vec('v', 'u8', L('n')), Union('u', Compute(num('n'), [0, 1, 2]),
  [Scalar('', 'u16'), Scalar('', 'u8'), Scalar('', 'u32')]))
S('cu_u32', 'compute', Scalar('a', 'u8'), Union('u', Compute(mul(num('a'), 256), [0, 256], R='u32'), [Scalar('', 'u16'), Scalar('', 'u8')]))

# ---- bools, and the other integral types --------------------------------------
S('bl_plain', 'bool plain', Scalar('a', 'bool'), Arr('b', 'bool', 3), Scalar('c', 'bool', explicit=False), Arr('d', 'bool', 2, form='carr'), Arr('e', 'bool', 2, inner=(2,)), Scalar('z', 'u16'))
S('bl_con', 'bool con frozen', Scalar('m', 'bool', magic=1), Scalar('a', 'bool', con=Cmp('neq', 1)), Scalar('b', 'bool', con=Cmp('eq', 0)), Scalar('z', 'u8'))
S('bl_gate', 'bool maybe', Scalar('a', 'bool'), Maybe(Scalar('x', 'u16'), eq(num('a'), 1)), Scalar('b', 'bool'), Maybe(Scalar('y', 'bool'), eq(num('b'), 0)), Scalar('z', 'u8'))
S('bl_tag', 'bool match', Scalar('t', 'bool'), Union('u', Match('t', [0, 1]), [Scalar('', 'u16'), Arr('', 'u8', 3)]), Scalar('z', 'u8'))
S('bl_alt', 'bool match ladder', Scalar('t', 'u8'), Union('u', Match('t', [2, 7]), [Scalar('', 'bool'), Arr('', 'bool', 2)]),
  Union('w', Ladder([eq(num('t'), 2), gt(num('t'), 2)]), [Scalar('', 'u16'), Scalar('', 'bool')]), Scalar('z', 'u8'))
S('bl_len', 'bool len derived', Scalar('n', 'bool'), Vec('v', 'u16', L('n')), Scalar('z', 'u8'))
_bl = Record('BoRec', Scalar('a', 'bool'), Scalar('b', 'u8'))
S('bl_rec', 'bool rec vrec len derived', Scalar('n', 'u8'), VRec('v', _bl, L('n')), Rec('r', _bl), ARec('s', _bl, 2))
S('vo_other', 'len derived plain', Scalar('n', 'char16_t'), Vec('v', 'char32_t', L('n')), Scalar('k', 'wchar_t', 2), Vec('w', 'wchar_t', L('k')), Arr('a', 'char16_t', 2),
  Arr('b', 'slong', 2), Arr('c', 'char8_t', 3))
S('un_other', 'match', Scalar('t', 'char16_t'), Union('u', Match('t', [1, 0x0102]), [Scalar('', 'char32_t'), Scalar('', 'char8_t')]), Scalar('k', 'wchar_t'),
  Union('w', Match('k', [-1, 5]), [Scalar('', 'slong'), Scalar('', 'ulong')]))
S('co_other', 'con', Scalar('a', 'char16_t', con=Cmp('lt', 300)), Scalar('b', 'wchar_t', con=Cmp('gte', -3)), Scalar('c', 'ulong', con=Cmp('gt', 2 ** 33)), Scalar('d', 'char8_t', con=Any([1, 200])))

S('cw_u64', 'compute', Scalar('a', 'u64'), Union('u', Compute(raw('a'), [1, 2 ** 32 + 1, 2 ** 63], R='u64'), [Scalar('', 'u16'), Scalar('', 'u8'), Scalar('', 'u32')]), Scalar('z', 'u8'))
S('cw_few', 'compute', Scalar('a', 'u64'), Scalar('b', 'u8'), Union('u', Compute(raw('a'), [1, 2], R='u64'), [Scalar('', 'u16'), Scalar('', 'u8')]))
S('cw_u32', 'compute', Scalar('a', 'u32'), Union('u', Compute(raw('a'), [3, 259, 65539, 2 ** 31], R='u32'), [Scalar('', 'u16'), Scalar('', 'u8'), Scalar('', 'u32'), Rec('', _pt)]))
S('cw_i32', 'compute signed', Scalar('a', 'i32'), Union('u', Compute(raw('a', True), [-1, 0, 255, -256], R='i32'), [Scalar('', 'u16'), Scalar('', 'u8'), Scalar('', 'u32'), Arr('', 'u8', 3)]), Scalar('z', 'u8'))
S('cw_i64', 'compute signed', Scalar('a', 'i64'), Union('u', Compute(raw('a', True), [-1, 2 ** 32 - 1, -2 ** 40], R='i64'), [Scalar('', 'u16'), Scalar('', 'u8'), Scalar('', 'u32')]))
S('cw_u16', 'compute narrow', Scalar('a', 'u32', 3), Scalar('b', 'u16'), Union('u', Compute(raw('b'), [2, 258], R='u16'), [Scalar('', 'u16'), Scalar('', 'u8')]),
  Union('w', Compute(raw('a'), [2, 65538, 258], R='u64'), [Scalar('', 'u16'), Scalar('', 'u8'), Scalar('', 'u32')]))
S('cw_len', 'comp bound', Scalar('a', 'u64'), Vec('v', 'u16', Lf(raw('a')), bound=10), Scalar('b', 'u32'), Vec('s', 'char', Lf(raw('b')), form='str', bound=6), Scalar('z', 'u8'))
S('cw_len_rec', 'comp bound vrec', Scalar('a', 'u64'), VRec('v', _pt, Lf(raw('a')), bound=16), Scalar('z', 'u8'))
S('cw_len_opt', 'comp bound maybe match', Scalar('a', 'u64'), Scalar('t', 'u8'), Maybe(Vec('v', 'u32', Lf(raw('a')), bound=16), gt(num('t'), 0)),
  Union('u', Match('t', [0, 1, 2]), [Vec('', 'u8', Lf(raw('a')), bound=8), Scalar('', 'u16'), Vec('', 'char', Lf(raw('a')), form='str', bound=9)]))

# ---- allocation ceilings -----------------------------------------------------------
S('bo_u8', 'bound', Scalar('n', 'u8'), Vec('v', 'u8', L('n'), bound=5), Scalar('z', 'u8'))
S('bo_u16', 'bound', Scalar('n', 'u32'), Vec('v', 'u16', L('n'), bound=9))
S('bo_u64', 'bound', Scalar('n', 'u64'), Vec('v', 'u64', L('n'), bound=24), Scalar('m', 'u64'), Vec('s', 'char', L('m'), bound=4, form='str'))
S('bo_rec', 'bound vrec', Scalar('n', 'u16'), VRec('v', _lv, L('n'), bound=200), Scalar('z', 'u8'))
S('bo_rec_small', 'bound vrec', Scalar('n', 'u32'), VRec('v', _pt, L('n'), bound=16, order=['bound', 'len']))
S('bo_alt', 'bound condlen match', Scalar('n', 'u32'), Scalar('t', 'u8'), Union('u', Match('t', [1, 2, 3]), [
  Vec('', 'u16', L('n'), bound=6), Vec('', 'char', L('n'), bound=3, form='str'), VRec('', _pt, L('n'), bound=12)]))
S('bo_maybe', 'bound condlen maybe', Scalar('n', 'u32'), Scalar('f', 'u8'), Maybe(Vec('v', 'u32', L('n'), bound=8), eq(num('f'), 1)), Scalar('z', 'u8'))
S('bo_comp', 'bound comp', Scalar('a', 'u8'), Scalar('b', 'u8'), Vec('v', 'u16', Lf(mul(num('a'), num('b'))), bound=12), Scalar('z', 'u8'))
S('bo_arr', 'bound', Scalar('n', 'u16'), Vec('v', 'u16', L('n'), bound=12, inner=(2,)))
S('bo_zero', 'bound', Scalar('n', 'u8'), Vec('v', 'u8', L('n'), bound=0), Scalar('z', 'u8'))
S('bo_con', 'bound con', Scalar('n', 'u8'), Vec('v', 'u8', L('n'), bound=4, con=Fn(ne(cnt('$'), 2)), order=['con', 'bound', 'len']))
S('bo_default', 'bound default', Scalar('n', 'u32'), Vec('v', 'u8', L('n')), Scalar('m', 'u64'), Vec('w', 'u64', L('m')))
S('bo_default_rec', 'bound default vrec', Scalar('n', 'u64'), VRec('v', _pt, L('n')))
S('bo_default_alt', 'bound default condlen match', Scalar('n', 'u64'), Scalar('t', 'u8'), Union('u', Match('t', [1, 2, 3]), [
  Vec('', 'u32', L('n')), Vec('', 'char', L('n'), form='str'), VRec('', _lv, L('n'))]))
S('bo_default_opt', 'bound default condlen maybe', Scalar('n', 'u64'), Scalar('f', 'u8'), Maybe(Vec('v', 'u16', L('n')), eq(num('f'), 1)))
S('bo_nested', 'bound vrec rec', Scalar('n', 'u8'), VRec('v', Record('bin', Scalar('k', 'u8'), Vec('w', 'u8', L('k'), bound=3)), L('n'), bound=640), Scalar('z', 'u8'))
S('bo_signed', 'bound signed', Scalar('n', 'i8'), Vec('v', 'u16', L('n'), bound=64), Scalar('m', 'i32'), Vec('w', 'u8', L('m')))
S('bo_raise', 'bound', Scalar('n', 'u64'), Vec('v', 'u8', L('n'), bound=17 * 1024 * 1024))

# ---- realistic mixtures --------------------------------------------------------------
_hdr = Record('hdr', Arr('magic', 'u8', 2, form='magicbytes', magic=[0x46, 0x57]), Scalar('ver', 'u16', con=Cmp('lte', 3)), Scalar('flags', 'u8'))
_opt = Record('opt', Scalar('kind', 'u8'), Scalar('len', 'u8'),
              Union('val', Match('kind', [1, 2, 3]), [Scalar('', 'u32'), Vec('', 'char', L('len'), form='str', bound=32), Rec('', _pt)]))
S('mx_packet', 'mix rec vrec match condlen maybe bound con frozen len derived', Rec('hdr', _hdr), Scalar('nopts', 'u8', con=Cmp('lte', 8)),
  Scalar('plen', 'u16'), VRec('opts', _opt, L('nopts')), Vec('payload', 'u8', L('plen'), bound=4096),
  Maybe(Scalar('crc', 'u32'), gt(num('plen'), 3)))
S('mx_image', 'mix comp rec maybe frozen', Arr('sig', 'char', 3, form='magicstr', magic=[73, 77, 71, 0]), Scalar('w', 'u8', con=Cmp('lt', 20)),
  Scalar('h', 'u8', con=Cmp('lt', 20)), Scalar('depth', 'u8', con=Any([8, 16])), Maybe(Arr('pal', 'u16', 2), eq(num('depth'), 8)),
  Vec('px', 'u16', Lf(mul(num('w'), num('h')))), Scalar('end', 'u16', magic=0x0DA0))
S('mx_tlv', 'mix match rec len derived', Scalar('n', 'u8'), VRec('items', Record('tlv', Scalar('t', 'u16'),
  Union('v', Match('t', [0x0101, 0x0202, 0x0303]), [Scalar('', 'u16'), Rec('', _lv), ARec('', _pt, 2)])), L('n')), Scalar('sum', 'u32'))
S('mx_gzip', 'mix maybe condlen frozen', Arr('magic', 'u8', 2, form='magicbytes', magic=[0x1f, 0x8b]), Scalar('method', 'u8'), Scalar('flags', 'u8'),
  Scalar('xlen', 'u16'), Scalar('mtime', 'u32'), Maybe(Vec('extra', 'u8', L('xlen')), eq(mod(num('flags'), 2), 1)),
  Maybe(Scalar('nlen', 'u16'), gt(mod(num('flags'), 16), 7)))
S('mx_ladder', 'mix ladder comp match', Scalar('ver', 'u8'), Scalar('t', 'u8'), Union('body', Match('t', [1, 2]), [Scalar('', 'u16'), Rec('', _pt)]),
  Union('tail', Ladder([eq(num('ver'), 1), eq(num('t'), 2), gt(num('ver'), 200)]), [Scalar('', 'u8'), Arr('', 'u16', 2), Rec('', _lv)]),
  Vec('pad', 'u8', Lf(mod(num('ver'), 4))))

# ---- names, sizes and depths out of the ordinary -------------------------------------
S('id_prefix', 'ids len derived maybe', Scalar('a', 'u8'), Scalar('ab', 'u16'), Scalar('abc', 'u8'), Vec('abcd', 'u8', L('ab')),
  Maybe(Scalar('b', 'u16'), eq(num('abc'), 1)), Scalar('aa', 'u8'))
S('id_long', 'ids len derived match', Scalar('number_of_bytes_in_the_payload_section', 'u16'), Scalar('number_of_bytes_in_the_payload_sectiom', 'u16'),
  Vec('payload_section_bytes', 'u8', L('number_of_bytes_in_the_payload_section')), Scalar('kind_of_the_trailing_record', 'u8'),
  Vec('payload_section_bytez', 'u16', L('number_of_bytes_in_the_payload_sectiom')),
  Union('trailing_record', Match('kind_of_the_trailing_record', [1, 2]), [Scalar('', 'u32'), Scalar('', 'u8')]))
S('id_last_char', 'ids comp maybe', Scalar('len0', 'u8'), Scalar('len1', 'u8'), Scalar('len2', 'u8'), Vec('v', 'u8', Lf(add(num('len1'), num('len2')))),
  Maybe(Scalar('m', 'u16'), eq(num('len0'), 2)), Scalar('_x', 'u8'), Scalar('X9', 'u8'))
S('wi_many', 'scalar plain wide', *[Scalar('f%d' % i, ['u8', 'u16', 'u32', 'u64', 'i16'][i % 5]) for i in range(24)])
S('wi_mixed', 'wide con frozen maybe match len derived', *([Scalar('f%d' % i, ['u8', 'u16'][i % 2], con=Cmp('lt', 200 + i) if i % 3 == 0 else None) for i in range(12)] +
  [Scalar('n', 'u8'), Scalar('t', 'u8'), Arr('k', 'u16', 3), Vec('v', 'u16', L('n')), Union('u', Match('t', [3, 4]), [Scalar('', 'u16'), Rec('', _pt)]),
   Maybe(Scalar('o', 'u32'), eq(num('f2'), 1)), Scalar('m', 'u32', magic=0xA1B2C3D4), Scalar('last', 'u8', con=Cmp('neq', 9))]))
S('wi_alts', 'match wide', Scalar('t', 'u8'), Union('u', Match('t', [10, 20, 30, 40, 50, 60, 70, 80, 90]), [
  Scalar('', 'u8'), Scalar('', 'u16'), Scalar('', 'u32'), Scalar('', 'u64'), Scalar('', 'i16'), Arr('', 'u16', 3), Rec('', _pt), Arr('', 'char', 4, form='fstr'), Rec('', _lv)]),
  Scalar('z', 'u8'))
S('wi_ladder', 'ladder wide', Scalar('a', 'u8'), Union('u', Ladder([eq(num('a'), 9), gt(num('a'), 200), eq(mod(num('a'), 5), 0), eq(mod(num('a'), 3), 0), lt(num('a'), 8)]),
  [Scalar('', 'u8'), Scalar('', 'u16'), Scalar('', 'u32'), Arr('', 'u8', 2), Rec('', _pt)]), Scalar('z', 'u8'))
S('wi_any', 'con wide', Scalar('a', 'u16', con=Any([1, 3, 5, 7, 256, 512, 0x0103, 65535])), Scalar('b', 'i32', con=Any([-1, -70000, 0, 65536, 5])), Scalar('c', 'u8', con=Any([9])))
S('wi_deps', 'comp maybe ladder wide', Scalar('a', 'u8'), Scalar('b', 'u8'), Scalar('c', 'u8'), Scalar('d', 'u8'),
  Vec('v', 'u8', Lf(add(add(num('a'), num('b')), add(num('c'), num('d'))))), Maybe(Scalar('m', 'u16'), and_(lt(num('a'), num('b')), lt(num('c'), num('d')))),
  Union('u', Ladder([and_(eq(num('a'), 1), eq(num('d'), 2)), eq(num('b'), num('c')), true]), [Scalar('', 'u8'), Scalar('', 'u16'), Scalar('', 'u32')]))
S('bg_vec', 'big len derived', Scalar('n', 'u32'), Vec('v', 'u16', L('n')), Scalar('z', 'u16'))
S('bg_str', 'big len derived', Scalar('n', 'u32'), Vec('s', 'char', L('n'), form='str'), Scalar('z', 'u8'))
S('bg_wide', 'big len derived', Scalar('n', 'u16'), Vec('v', 'u64', L('n')), Scalar('k', 'u8'), Vec('w', 'u32', L('k')))
S('bg_arr', 'big arr plain', Arr('a', 'u8', 300), Arr('b', 'u16', 70), Arr('c', 'u32', 9, inner=(5,)), Arr('s', 'char', 40, form='fstr'), Arr('d', 'u64', 17, form='carr'))
S('bg_rec', 'big vrec len derived', Scalar('n', 'u16'), VRec('v', _pt, L('n')), Scalar('z', 'u8'))
S('bk_vec', 'bulk len derived', Scalar('n', 'u32'), Vec('v', 'u16', L('n')), Scalar('z', 'u8'))
S('bk_str', 'bulk len derived', Scalar('n', 'u32'), Vec('s', 'char', L('n'), form='str'), Scalar('z', 'u8'))
S('bk_rec', 'bulk vrec len derived', Scalar('n', 'u32'), VRec('v', _pt, L('n')), Scalar('z', 'u8'))
S('bk_maybe', 'bulk vrec maybe condlen', Scalar('f', 'u8'), Scalar('n', 'u16'), Maybe(VRec('v', _pt, L('n')), eq(num('f'), 1)), Scalar('z', 'u16'))
S('bk_union', 'bulk vrec match condlen', Scalar('n', 'u32'), Scalar('t', 'u8'), Union('u', Match('t', [1, 2, 3]), [VRec('', _pt, L('n')), Vec('', 'u16', L('n')), Vec('', 'char', L('n'), form='str')]), Scalar('z', 'u8'))
S('bk_comp', 'bulk vrec comp', Scalar('a', 'u16'), Scalar('b', 'u16'), VRec('v', _pt, Lf(add(num('a'), num('b')))), Scalar('z', 'u8'))
S('bk_nested', 'bulk vrec rec len derived', Scalar('h', 'u16'), Rec('r', Record('bkn', Scalar('n', 'u16'), VRec('v', _mg, L('n')), Scalar('k', 'u8'))), Scalar('z', 'u16'))
S('bk_len', 'bulk vrec len derived', Scalar('n', 'u16'), VRec('v', _lv, L('n')), Scalar('z', 'u8'))
S('bk_opt_vec', 'bulk maybe condlen', Scalar('f', 'u8'), Scalar('n', 'u32'), Maybe(Vec('v', 'u16', L('n')), eq(num('f'), 1)), Maybe(Vec('s', 'char', L('n'), form='str'), eq(num('f'), 2)), Scalar('z', 'u8'))
S('bk_comp_vec', 'bulk comp', Scalar('a', 'u32'), Vec('v', 'u32', Lf(num('a'))), Vec('s', 'char', Lf(add(num('a'), 1)), form='str'), Scalar('z', 'u8'))
S('bg_arec', 'big arec', ARec('v', _pt, 20), Scalar('z', 'u8'))
S('bg_narrow', 'big len derived narrow', Scalar('n', 'u32', 2), Vec('v', 'u8', L('n')), Scalar('m', 'u64', 3), Vec('w', 'u16', L('m')))
S('bg_magic', 'frozen big', Arr('s', 'char', 20, form='magicstr', magic=[ord(c) for c in 'a twenty byte marker'] + [0]), Arr('b', 'u8', 12, form='magicbytes', magic=list(range(240, 252))), Scalar('v', 'u8'))

_l1 = Record('l1', Scalar('n', 'u8'), VRec('ps', _pt, L('n')), Maybe(Scalar('o', 'u16'), gt(num('n'), 1)))
_l2 = Record('l2', Scalar('t', 'u8'), Union('u', Match('t', [1, 2]), [Rec('', _l1), Scalar('', 'u16')]))
_l3 = Record('l3', Scalar('n', 'u8'), VRec('xs', _l2, L('n')))
_l4 = Record('l4', ARec('as', _l3, 2), Scalar('q', 'u16', con=Cmp('lt', 40000)))
S('dp_tower', 'deep rec vrec arec match maybe len derived con', Scalar('h', 'u8'), Rec('r', _l4), Scalar('z', 'u8'))
S('dp_union', 'deep match rec vrec', Scalar('t', 'u8'), Scalar('n', 'u8'), Union('u', Match('t', [1, 2, 3]), [Rec('', _l2), VRec('', _l2, L('n')), ARec('', _l1, 2)]), Scalar('z', 'u16'))
S('dp_maybe', 'deep maybe rec vrec condlen', Scalar('f', 'u8'), Scalar('n', 'u8'), Maybe(Rec('a', _l2), eq(mod(num('f'), 2), 1)), Maybe(VRec('b', _l1, L('n')), gt(num('f'), 1)),
  Maybe(ARec('c', _lv, 2), eq(num('f'), 3)), Scalar('z', 'u8'))
S('dp_fail', 'deep con rec vrec arec match frozen', Scalar('n', 'u8'), VRec('xs', Record('dfx', Scalar('t', 'u8'), Scalar('c', 'u16', con=Cmp('lt', 300)),
  Union('u', Match('t', [1, 2]), [Scalar('', 'u16', con=Cmp('gt', 4)), Rec('', _mg)])), L('n')), ARec('ys', Record('dfy', Rec('i', _in), Scalar('k', 'u8', con=Any([1, 2, 3]))), 2), Scalar('z', 'u8'))
S('dp_comp', 'deep comp rec', Rec('h', Record('dch', Scalar('w', 'u8'), Scalar('k', 'u8'))), Rec('d', Record('dcd', Scalar('m', 'u8'), Vec('v', 'u16', Lf(mod(num('m'), 4))), Scalar('e', 'u16'))),
  Vec('x', 'u8', Lf(mod(sub('h', 1, 'w'), 5))))

# ---- more of each kind in unusual company ----------------------------------------------
S('xx_signed_vecs', 'len derived plain', Scalar('n', 'u8'), Vec('a', 'i8', L('n')), Scalar('m', 'u8'), Vec('b', 'i32', L('m')), Scalar('k', 'u16'), Vec('c', 'char', L('k')))
S('xx_float_opt', 'float maybe', Scalar('f', 'u8'), Maybe(Vec('b', 'f64', Lf(num('f'))), lt(num('f'), 4)), Maybe(Arr('c', 'f32', 2), gt(num('f'), 1)), Scalar('z', 'u8'))
S('xx_float_rec', 'float rec match', Scalar('t', 'u8'), Rec('r', Record('xfr', Arr('a', 'f64', 1), Scalar('k', 'u16'))), Union('u', Match('t', [1, 2]), [Arr('', 'f32', 2), Scalar('', 'f64')]))
S('xx_disc64', 'match', Scalar('t', 'u64'), Union('u', Match('t', [2 ** 63 + 1, 2 ** 40, 7], ['9223372036854775809ull', '1099511627776ull', '7ull']), [Scalar('', 'u16'), Scalar('', 'u8'), Arr('', 'u16', 2)]), Scalar('z', 'u8'))
S('xx_disc_i8', 'match signed', Scalar('t', 'i8'), Union('u', Match('t', [-128, -1, 127]), [Scalar('', 'u16'), Scalar('', 'u8'), Rec('', _pt)]), Scalar('z', 'u8'))
S('xx_disc_char', 'match', Scalar('t', 'char', explicit=False), Union('u', Match('t', [65, 66], ["'A'", "'B'"]), [Scalar('', 'u16'), Scalar('', 'u8')]))
S('xx_disc_con', 'match con', Scalar('t', 'u16', con=Any([1, 300])), Union('u', Match('t', [1, 2, 300]), [Scalar('', 'u16'), Scalar('', 'u8'), Scalar('', 'u32')]), Scalar('z', 'u8'))
S('xx_disc_late', 'match rec', Scalar('t', 'u8'), Rec('r', _lv), Scalar('k', 'u16'), Union('u', Match('k', [1, 2]), [Scalar('', 'u16'), Scalar('', 'u8')]), Union('w', Match('t', [1, 2]), [Rec('', _pt), Rec('', _mg)]))
S('xx_three_share', 'len derived shared match', Scalar('n', 'u8'), Scalar('t', 'u8'), Vec('a', 'u8', L('n')), Union('u', Match('t', [1, 2]), [Vec('', 'u8', L('n')), Scalar('', 'u16')]), Vec('b', 'u16', L('n')))
S('xx_shared_rec', 'len derived shared vrec', Scalar('n', 'u16'), VRec('a', _pt, L('n')), Vec('b', 'u8', L('n')), VRec('c', _mg, L('n')))
S('xx_shared_narrow', 'len derived shared narrow con', Scalar('n', 'u32', 1, con=Cmp('lte', 250)), Vec('a', 'u8', L('n')), Vec('b', 'char', L('n'), form='str'))
S('xx_len_i16', 'len derived signed', Scalar('n', 'i16'), Vec('a', 'u8', L('n')), Scalar('z', 'u8'))
S('xx_len_maybe_mid', 'len derived maybe', Scalar('f', 'u8'), Scalar('n', 'u8'), Maybe(Scalar('o', 'u16'), eq(num('f'), 1)), Vec('a', 'u16', L('n')), Maybe(Scalar('p', 'u8'), eq(num('n'), 2)))
S('xx_two_opts', 'maybe condlen', Scalar('n', 'u8'), Scalar('m', 'u8'), Maybe(Vec('a', 'u8', L('n')), gt(num('n'), 0)), Maybe(Vec('b', 'u16', L('m')), gt(num('m'), 1)))
S('xx_cond_in_rec', 'condlen maybe rec', Rec('r', Record('xcr', Scalar('f', 'u8'), Scalar('n', 'u8'), Maybe(Vec('v', 'u8', L('n')), eq(num('f'), 1)))), Scalar('z', 'u8'))
S('xx_comp_in_vrec', 'comp vrec rec', Scalar('n', 'u8'), VRec('r', Record('xcv', Scalar('a', 'u8'), Vec('v', 'u16', Lf(mod(num('a'), 3))), Scalar('b', 'u8')), L('n')), Scalar('z', 'u8'))
S('xx_ladder_in_rec', 'ladder rec', ARec('r', Record('xlr', Scalar('a', 'u8'), Union('u', Ladder([lt(num('a'), 2), lt(num('a'), 9)]), [Scalar('', 'u8'), Scalar('', 'u16')])), 2), Scalar('z', 'u8'))
S('xx_compute_in_rec', 'compute rec', Rec('r', Record('xur', Scalar('a', 'u8'), Scalar('b', 'u8'), Union('u', Compute(add(num('a'), num('b')), [1, 3]), [Scalar('', 'u8'), Scalar('', 'u16')]))), Scalar('z', 'u8'))
S('xx_ladder_alts', 'ladder condlen comp vrec', Scalar('s', 'u8'), Scalar('n', 'u8'), Union('u', Ladder([eq(num('s'), 1), eq(num('s'), 2), eq(num('s'), 3), gt(num('s'), 100)]),
  [VRec('', _pt, L('n')), Vec('', 'char', Lf(mod(num('n'), 4)), form='str'), ARec('', _mg, 2), Arr('', 'char', 3, form='fstr')]), Scalar('z', 'u8'))
S('xx_compute_alts', 'compute condlen con', Scalar('s', 'u8'), Scalar('n', 'u8'), Union('u', Compute(mod(num('s'), 4), [0, 1, 2]),
  [Vec('', 'u16', L('n')), Scalar('', 'u16', con=Cmp('lt', 500)), Rec('', _lv)]), Scalar('z', 'u8', con=Cmp('gt', 1)))
S('xx_opt_con_after', 'maybe con', Scalar('f', 'u8', con=Cmp('lte', 3)), Maybe(Scalar('a', 'u16'), gt(num('f'), 1)), Scalar('c', 'u16', con=Cmp('gte', 10)), Maybe(Rec('r', _in), eq(num('f'), 3)))
S('xx_frozen_in_alt', 'match frozenish con', Scalar('t', 'u8'), Union('u', Match('t', [1, 2, 3]), [Arr('', 'char', 2, form='fstr', con=Cmp('eq', [72, 73, 0])), Scalar('', 'u32', con=Cmp('eq', 0x01020304)), Rec('', _mg)]), Scalar('z', 'u8'))
S('xx_vec_eq', 'con frozenish len derived', Scalar('n', 'u8'), Vec('s', 'char', L('n'), form='str', con=Fn(eq(byt('$', 0), 65))), Scalar('z', 'u8'))
S('xx_rec_cons', 'con rec arec vrec', Rec('a', _pt, con=Fn(ne(sub('$', 1, 'x'), 5))), Scalar('n', 'u8'), VRec('b', _pt, L('n'), con=Fn(lt(cnt2('$'), 3))), Scalar('z', 'u8'))
S('xx_frozen_mid', 'frozen rec maybe', Scalar('a', 'u16'), Arr('m', 'u16', 2, con=Cmp('eq', [1, 2, 3, 4])), Maybe(Rec('r', _mg), eq(num('a'), 1)), Scalar('e', 'u32', 3, con=Cmp('eq', 0x00C0DE)), Scalar('b', 'u8'))
S('xx_frozen_i64', 'frozen', Scalar('a', 'i64', magic=-5), Scalar('b', 'u64', 7, magic=0x01020304050607), Scalar('c', 'i16', con=Cmp('eq', -300, '-300')))
S('xx_narrow_all', 'narrow scalar', Scalar('a', 'u64', 1), Scalar('b', 'u64', 2), Scalar('c', 'u64', 4), Scalar('d', 'u64', 6), Scalar('e', 'u64', 7), Scalar('f', 'i64', 5))
S('xx_narrow_nested', 'narrow rec vrec arec maybe match', Scalar('n', 'u16', 1), VRec('v', Record('xnn', Scalar('a', 'u32', 3), Scalar('b', 'u64', 5)), L('n')), ARec('w', Record('xnm', Scalar('a', 'u16', 1), Scalar('b', 'u32', 2)), 2),
  Scalar('t', 'u32', 3), Maybe(Scalar('o', 'u64', 3), eq(num('n'), 1)), Union('u', Match('t', [1, 0x010203]), [Scalar('', 'u64', 6), Scalar('', 'u32', 3)]))
S('xx_order_mix', 'plain arr rec len derived', Scalar('n', 'u16'), Arr('a', 'u8', 4), Vec('s', 'char', L('n'), form='str'), Arr('b', 'u32', 2), Rec('r', Record('xom', Arr('x', 'u16', 2), Arr('y', 'u8', 2), Arr('z', 'u16', 2, inner=(2,)))), Scalar('e', 'i64'))

# many fields, many dependencies (only where a check asks for them)
S('va_counts', 'vast derived len', *[f for i in range(20) for f in (Scalar('n%d' % i, 'u8'), Vec('v%d' % i, 'u8', L('n%d' % i)))], Scalar('last', 'u16'))
S('va_fields', 'vast', *[Scalar('f%d' % i, ['u8', 'u16'][i % 2]) for i in range(70)])
S('va_maybes', 'vast maybe', *[Scalar('p%d' % i, 'u8') for i in range(9)],
  *[Maybe(Scalar('o%d' % i, 'u8'), eq(num('p%d' % i), 1)) for i in range(9)])
S('va_ladder', 'vast ladder', *[Scalar('p%d' % i, 'u8') for i in range(9)],
  Union('u', Ladder([eq(num('p%d' % i), 1) for i in range(9)]), [Scalar('', 'u8'), Scalar('', 'u16'), Scalar('', 'u32'), Scalar('', 'u64'),
        Scalar('', 'i16'), Scalar('', 'i32'), Arr('', 'u8', 3), Rec('', _pt), Vec('', 'u8', L('p0'))]))


# ---- a recorded finding (known_findings.txt) -------------------------------------------
KNOWN = {'kf_nested_slot': Record('kf_nested_slot', Rec('h', Record('kfh', Scalar('kind', 'u8'),
  Union('b', Match('kind', [1, 2]), [Scalar('', 'u8'), Scalar('', 'u16')]))), Maybe(Scalar('o', 'u16'), eq(sub('h', 1, 'kind'), 2)), Scalar('z', 'u8'))}
KNOWN_TEXT = {'kf_nested_slot': 'a write judges maybe<"o", parse_if<pred, "h">> where pred reads h["kind"_f], the discriminant of a nested record, '
                                'by the stale slot of the struct and not by the tag written'}


def known_nested_slot(m):
    """a write of kf_nested_slot whose nested slot is not the tag it writes,
    judged by that slot"""
    if m.record != 'kf_nested_slot' or m.op != 'W':
        return False
    hdr, o, z = m.call['pre']
    slot, tag = hdr[0][0], hdr[1]['i']
    if slot == tag:
        return False
    engaged = o != []
    by_slot_ok = engaged == (slot == 2)
    return m.ok == by_slot_ok and (m.ok or (m.r, m.at) == ('validation_failure', 'o')) and m.d <= {'verdict', 'bytes', 'layout', 'position'}


def constant_ok(r):
    """g++-14 cannot evaluate arrays of records that hold containers or
    initialised slots, nor containers of 16 MiB"""
    for f in r.walk():
        if isinstance(f, ARec) and any(isinstance(g, (Bounded, Union)) or g.id in q.frozen() for q in f.rec.records() for g in q.fields):
            return False
        if isinstance(f, Bounded) and f.bound is None and isinstance(f.len, FromField):
            for q in r.records():
                t = next((g for g in q.fields if g.id == f.len.id), None)
                if isinstance(t, Scalar) and t.w > 2:
                    return False
        if isinstance(f, Arr) and f.count() > 100:
            return False
    return True


def select(pred):
    return [(r, t) for r, t in ALL if pred(r.name, t)]


def by_tags(*tags):
    want = set(tags)
    return [(r, t) for r, t in ALL if t & want]


def by_names(*names):
    return [(r, t) for r, t in ALL if r.name in names]


if __name__ == '__main__':
    import json
    print(len(ALL))
    json.dumps([r.spec() for r, _ in ALL])
