------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* The schema language and its static semantics.                           *)
(*                                                                         *)
(* A record schema is a sequence of fields.  A field is a record with an   *)
(* id and a kind k:                                                        *)
(*   scalar  sz sg w bl con       one integer: sizeof, signed, wire width  *)
(*   arr     es n bl con          n scalars of es bytes, fixed extent      *)
(*   vec     es foot bl len bound con  container; foot = bytes per element *)
(*   rec     recs con             nested record                            *)
(*   arec    recs n con           fixed number of nested records           *)
(*   vrec    recs foot len bound con  container of nested records          *)
(*   maybe   base pred            base present iff pred                    *)
(*   union   ded alts con         one of alts, chosen by ded               *)
(* Values: host bytes for scalar/arr/vec, tuples for records, sequences of *)
(* tuples for arec/vrec, <<>> or <<v>> for maybe, [i, v] for union.        *)
(* bl: the scalars are bools, whose only values are the bytes 0 and 1.     *)
(***************************************************************************)
EXTENDS Bytes, TLC

Ids(fs) == {fs[i].id : i \in DOMAIN fs}
IndexOf(fs, id) == CHOOSE i \in DOMAIN fs : fs[i].id = id
Has(fs, id) == \E i \in DOMAIN fs : fs[i].id = id
FieldOf(fs, id) == fs[IndexOf(fs, id)]

IsLeaf(f) == f.k \in {"scalar", "arr", "vec"}
\* Whether the bytes v are a value of leaf t at all.
IsValue(t, v) == t.bl => \A i \in DOMAIN v : v[i] <= 1
IsContainer(f) == f.k \in {"vec", "vrec"}
LenFrom(f, id) == IsContainer(f) /\ f.len.t = "field" /\ f.len.id = id

\* Number of elements of a container value.
Count(f, v) == IF f.k = "vec" THEN Len(v) \div f.foot ELSE Len(v)

----------------------------------------------------------------------------
(* Which fields the library fills in itself. *)
IsLengthTarget(fs, id) == \E i \in DOMAIN fs : LenFrom(fs[i], id)
IsDiscriminant(fs, id) ==
  \E i \in DOMAIN fs : fs[i].k = "union" /\ fs[i].ded.t = "match" /\ fs[i].ded.id = id
IsDerived(fs, id) == IsLengthTarget(fs, id) \/ IsDiscriminant(fs, id)
IsFrozen(f) == f.k \in {"scalar", "arr"} /\ f.con.t = "cmp" /\ f.con.op = "eq"
FrozenVal(f) == SubSeq(f.con.v, 1, IF f.k = "scalar" THEN f.sz ELSE Len(f.con.v))

(* What operator[] grants. *)
Access(fs, f) ==
  IF IsLengthTarget(fs, f.id) THEN "hidden"
  ELSE IF IsDiscriminant(fs, f.id) \/ IsFrozen(f) THEN "readonly"
  ELSE "assignable"

----------------------------------------------------------------------------
(* Expressions over sibling values: E(id) gives the sibling's value.  The  *)
(* same expressions are emitted as the C++ callables of the schema.        *)
RECURSIVE Eval(_, _)
Eval(e, env) ==
  CASE e.o = "const" -> e.c
    [] e.o = "true" -> TRUE
    [] e.o \in {"num", "raw"} -> NumSat(env[e.id])
    [] e.o = "byt" -> (IF e.k < Len(env[e.id]) THEN env[e.id][e.k + 1] ELSE 0)
    [] e.o = "cnt" -> Len(env[e.id]) \div e.c
    [] e.o = "rcnt" -> Len(env[e.id])
    [] e.o = "has" -> env[e.id] # <<>>
    [] e.o = "onum" -> (IF env[e.id] = <<>> THEN 0 ELSE NumSat(env[e.id][1]))
    [] e.o = "ix" -> env[e.id].i
    [] e.o = "sub" -> NumSat(env[e.id][e.k])
    [] e.o = "add" -> Eval(e.a, env) + Eval(e.b, env)
    [] e.o = "mul" -> Eval(e.a, env) * Eval(e.b, env)
    [] e.o = "mod" -> Eval(e.a, env) % Eval(e.b, env)
    [] e.o = "eq" -> Eval(e.a, env) = Eval(e.b, env)
    [] e.o = "ne" -> Eval(e.a, env) # Eval(e.b, env)
    [] e.o = "lt" -> Eval(e.a, env) < Eval(e.b, env)
    [] e.o = "gt" -> Eval(e.a, env) > Eval(e.b, env)
    [] e.o = "and" -> (Eval(e.a, env) /\ Eval(e.b, env))
    [] e.o = "or" -> (Eval(e.a, env) \/ Eval(e.b, env))
    [] e.o = "not" -> (~ Eval(e.a, env))

RECURSIVE Deps(_)
Deps(e) ==
  CASE e.o \in {"const", "true"} -> {}
    [] e.o \in {"num", "raw", "byt", "cnt", "rcnt", "has", "onum", "ix", "sub"} -> {e.id}
    [] e.o = "not" -> Deps(e.a)
    [] OTHER -> Deps(e.a) \cup Deps(e.b)

----------------------------------------------------------------------------
(* Constraints.  A comparison compares numbers, whatever type its operand  *)
(* was spelled with; on a byte string it compares the whole string.        *)
Satisfies(f, v) ==
  LET c == f.con IN
  CASE c.t = "none" -> TRUE
    [] c.t = "cmp" /\ f.k = "scalar" ->
         (LET x == Ext9(v, f.sg) IN
          CASE c.op = "eq" -> x = c.v
            [] c.op = "neq" -> x # c.v
            [] c.op = "lt" -> Less9(x, c.v)
            [] c.op = "gt" -> Less9(c.v, x)
            [] c.op = "lte" -> ~ Less9(c.v, x)
            [] c.op = "gte" -> ~ Less9(x, c.v))
    [] c.t = "cmp" /\ f.k # "scalar" ->
         (CASE c.op = "eq" -> v = c.v
            [] c.op = "neq" -> v # c.v
            [] c.op = "lt" -> LexLess(v, c.v)
            [] c.op = "gt" -> LexLess(c.v, v)
            [] c.op = "lte" -> ~ LexLess(c.v, v)
            [] c.op = "gte" -> ~ LexLess(v, c.v))
    [] c.t = "any" ->
         (LET x == IF f.k = "scalar" THEN Ext9(v, f.sg) ELSE v
          IN  \E i \in DOMAIN c.vs : c.vs[i] = x)
    [] c.t = "fn" -> Eval(c.e, [s \in {"$"} |-> v])

----------------------------------------------------------------------------
(* Well-formedness, as the compiler has to judge it. *)
LenDeps(f) ==
  IF ~ IsContainer(f) THEN {}
  ELSE IF f.len.t = "field" THEN {f.len.id} ELSE Deps(f.len.e)

FieldDeps(f) ==
  CASE f.k = "maybe" -> LenDeps(f.base) \cup Deps(f.pred)
    [] f.k = "union" ->
         UNION {LenDeps(f.alts[j]) : j \in DOMAIN f.alts} \cup
         (CASE f.ded.t = "match" -> {f.ded.id}
            [] f.ded.t = "compute" -> Deps(f.ded.e)
            [] f.ded.t = "ladder" -> UNION {Deps(f.ded.preds[j]) : j \in DOMAIN f.ded.preds})
    [] OTHER -> LenDeps(f)

IdsUnique(fs) == \A i, j \in DOMAIN fs : fs[i].id = fs[j].id => i = j
DepsResolved(fs) ==
  \A i \in DOMAIN fs : \A d \in FieldDeps(fs[i]) :
    \E j \in DOMAIN fs : j < i /\ fs[j].id = d

\* What a descriptor admits: the options it was given (opts: the kinds, in
\* the order written) are of admitted kinds, each at most once.
Admits(d) ==
  CASE d \in {"basic_field", "as_trivial"} -> {"size", "con"}
    [] d \in {"vec_field", "str_field", "vector_of_records", "as_vec", "as_string", "as_vec_of_records"}
         -> {"len", "con", "bound"}
    [] d \in {"magic_number"} -> {"size"}
    [] d \in {"magic_byte_array", "magic_string"} -> {}
    [] OTHER -> {"con"}
OptionsOk(f) ==
  /\ \A i \in DOMAIN f.opts : f.opts[i] \in Admits(f.desc)
  /\ \A i, j \in DOMAIN f.opts : f.opts[i] = f.opts[j] => i = j
  /\ IsContainer(f) => \E i \in DOMAIN f.opts : f.opts[i] = "len"

WidthOk(f) == f.k = "scalar" => f.w <= f.sz

RECURSIVE WellFormed(_), FieldOk(_)
FieldOk(f) ==
  CASE f.k = "maybe" -> FieldOk(f.base) /\ f.base.con.t = "none"
                        /\ f.base.k \notin {"maybe", "union"}
    [] f.k = "union" ->
         /\ Len(f.alts) > 0
         /\ \A j \in DOMAIN f.alts : FieldOk(f.alts[j])
         /\ \A i, j \in DOMAIN f.alts : f.alts[i].cpp = f.alts[j].cpp => i = j
         /\ f.ded.t \in {"match", "compute"} =>
              \A i, j \in DOMAIN f.ded.vals : f.ded.vals[i] = f.ded.vals[j] => i = j
         /\ \A i \in DOMAIN f.opts : f.opts[i] = "con"
         /\ \A i, j \in DOMAIN f.opts : f.opts[i] = f.opts[j] => i = j
    [] f.k \in {"rec", "arec", "vrec"} -> WellFormed(f.recs) /\ OptionsOk(f)
    [] OTHER -> WidthOk(f) /\ OptionsOk(f)

WellFormed(fs) ==
  /\ IdsUnique(fs)
  /\ DepsResolved(fs)
  /\ \A i \in DOMAIN fs : FieldOk(fs[i])
=============================================================================
