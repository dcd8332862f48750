------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties, over the machine's variables.  TLC evaluates them in    *)
(* every state of the exhaustive models (MC) and on every recorded run     *)
(* (Trace).                                                                *)
(***************************************************************************)
EXTENDS S2S

(* Equality of structs of one schema, or of none (<<>>).  TLC compares no    *)
(* number with a sequence, so alternatives are compared only when they are   *)
(* the same.                                                                 *)
RECURSIVE Alike(_, _, _), AlikeAt(_, _, _)
AlikeAt(f, v, w) ==
  CASE f.k = "rec" -> Alike(f.recs, v, w)
    [] f.k \in {"arec", "vrec"} -> Len(v) = Len(w) /\ \A j \in DOMAIN v : Alike(f.recs, v[j], w[j])
    [] f.k = "maybe" -> Len(v) = Len(w) /\ (v # <<>> => AlikeAt(f.base, v[1], w[1]))
    [] f.k = "union" -> v.i = w.i /\ AlikeAt(f.alts[v.i], v.v, w.v)
    [] OTHER -> v = w
Alike(fs, v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : AlikeAt(fs[i], v[i], w[i])

Own == SubSeq(buf, call.at + 1, Len(buf))          \* bytes this write appended
Took == SubSeq(buf, call.at + 1, rp)               \* bytes this read consumed

(* Largest ceiling a schema grants anywhere. *)
RECURSIVE Ceiling(_), CeilingOf(_)
Max2(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
CeilingOf(f) ==
  CASE f.k = "vec" -> f.bound
    [] f.k = "vrec" -> Max2(f.bound, Ceiling(f.recs))
    [] f.k \in {"rec", "arec"} -> Ceiling(f.recs)
    [] f.k = "maybe" -> CeilingOf(f.base)
    [] f.k = "union" -> MaxOf({CeilingOf(f.alts[j]) : j \in DOMAIN f.alts})
    [] OTHER -> 0
Ceiling(fs) == MaxOf({CeilingOf(fs[i]) : i \in DOMAIN fs})

(* C02, C08, C10, C15: what a successful write appended is the layout. *)
WriteIsLayout ==
  (call.op = "W" /\ res.t = "ok") => Own = Layout(call.fs, call.vals, call.be)

(* C06: at every moment of a write that has not failed a check, and when   *)
(* the stream refused, what is in the stream is a prefix of the layout;    *)
(* nothing beyond the refusal point is ever there.                         *)
WriteIsPrefix ==
  (call.op = "W" /\ (res.t # "err" \/ res.r = EXHAUST)) =>
     IsPrefixOf(Own, Layout(call.fs, call.vals, call.be))
NeverBeyondCap == Len(buf) <= cap \/ buf = <<>> \/ cap = Unlimited \/ call.op # "W"
RefusedIsReported ==
  (call.op = "W" /\ res.t = "ok" /\ cap # Unlimited) =>
     call.at + Len(Layout(call.fs, call.vals, call.be)) <= cap

(* C03, C01: a successful read's struct encodes to the bytes consumed.     *)
ReadInverts ==
  (call.op = "R" /\ res.t = "ok") => Layout(call.fs, res.v, call.be) = Took

(* C13, C14: reasons by direction. *)
ReasonsByDirection ==
  res.t = "err" =>
    /\ call.op = "R" => res.r \in {EXHAUST, INVALID, NOTYPE, EXCESS}
    /\ call.op = "W" => res.r \in {EXHAUST, INVALID, NOTYPE, CONTRA}

(* C14: the field named is a field of the schema passed to the cast. *)
NamesAField == (res.t = "err" /\ call.op # "none") => res.at \in Ids(call.fs)

(* C07: a struct that was read or written satisfies its constraints. *)
RECURSIVE Valid(_, _), ValidOf(_, _)
ValidOf(f, v) ==
  CASE f.k = "maybe" -> (v = <<>> \/ ValidOf([f.base EXCEPT !.con = [t |-> "none"]], v[1]))
    [] f.k = "union" -> Satisfies(f, v) /\ ValidOf(f.alts[v.i], v.v)
    [] f.k = "rec" -> Satisfies(f, v) /\ Valid(f.recs, v)
    [] f.k \in {"arec", "vrec"} -> Satisfies(f, v) /\ \A j \in DOMAIN v : Valid(f.recs, v[j])
    [] OTHER -> Satisfies(f, v) /\ IsValue(f, v)
Valid(fs, vs) == \A i \in DOMAIN fs : ValidOf(fs[i], vs[i])
ReadIsValid == (call.op = "R" /\ res.t = "ok") => Valid(call.fs, res.v)
WrittenIsValid == (call.op = "W" /\ res.t = "ok") => Valid(call.fs, AsWritten(call.fs, call.vals))

(* C13: no container of a struct that was read exceeds its ceiling. *)
RECURSIVE Within(_, _), WithinOf(_, _)
WithinOf(f, v) ==
  CASE f.k = "vec" -> Len(v) <= f.bound
    [] f.k = "vrec" -> Len(v) * f.foot <= f.bound /\ \A j \in DOMAIN v : Within(f.recs, v[j])
    [] f.k = "rec" -> Within(f.recs, v)
    [] f.k = "arec" -> \A j \in DOMAIN v : Within(f.recs, v[j])
    [] f.k = "maybe" -> (v = <<>> \/ WithinOf(f.base, v[1]))
    [] f.k = "union" -> WithinOf(f.alts[v.i], v.v)
    [] OTHER -> TRUE
Within(fs, vs) == \A i \in DOMAIN fs : WithinOf(fs[i], vs[i])
ReadWithinCeilings == (call.op = "R" /\ res.t = "ok") => Within(call.fs, res.v)

(* C09, C10, C11, C12: what is on the wire is consistent: every length is  *)
(* the size of its container, every tag the value of its alternative,      *)
(* every optional there exactly when its predicate holds.                  *)
RECURSIVE Coherent(_, _), CoherentOf(_, _, _, _)
ContainerOk(fs, vs, t, v) ==
  LET env == [id \in Ids(fs) |-> vs[IndexOf(fs, id)]] IN
  IF t.len.t = "field" THEN Count(t, v) = LenNum(FieldOf(fs, t.len.id), env[t.len.id])
  ELSE Count(t, v) = Eval(t.len.e, env)
CoherentOf(fs, vs, f, v) ==
  LET env == [id \in Ids(fs) |-> vs[IndexOf(fs, id)]] IN
  CASE f.k = "vec" -> ContainerOk(fs, vs, f, v)
    [] f.k = "vrec" -> ContainerOk(fs, vs, f, v) /\ \A j \in DOMAIN v : Coherent(f.recs, v[j])
    [] f.k = "rec" -> Coherent(f.recs, v)
    [] f.k = "arec" -> \A j \in DOMAIN v : Coherent(f.recs, v[j])
    [] f.k = "maybe" -> Eval(f.pred, env) = (v # <<>>) /\ (v # <<>> => CoherentOf(fs, vs, f.base, v[1]))
    [] f.k = "union" -> Select(fs, f, env) = v.i /\ CoherentOf(fs, vs, f.alts[v.i], v.v)
    [] OTHER -> TRUE
Coherent(fs, vs) == \A i \in DOMAIN fs : CoherentOf(fs, vs, fs[i], vs[i])
ReadIsCoherent == (call.op = "R" /\ res.t = "ok") => Coherent(call.fs, res.v)
WrittenIsCoherent == (call.op = "W" /\ res.t = "ok") => Coherent(call.fs, AsWritten(call.fs, call.vals))

(* C04: byte order reverses each scalar, and nothing else.  Units gives    *)
(* the runs of scalars of a struct: their size and the bytes they take.    *)
RECURSIVE Units(_, _), Reordered(_, _, _)
Units(fs, vs) ==
  Concat([i \in DOMAIN fs |->
    LET c == Contents(fs, vs, i) IN
    IF c.leaf
    THEN <<IF c.t.k = "scalar" THEN [es |-> c.t.w, n |-> c.t.w] ELSE [es |-> c.t.es, n |-> Len(c.v)]>>
    ELSE Concat([j \in DOMAIN c.recs |-> Units(c.t.recs, c.recs[j])])])
Reordered(b, us, a) ==
  IF us = <<>> THEN <<>>
  ELSE Swap(Take(b, a, Head(us).n), Head(us).es) \o Reordered(b, Tail(us), a + Head(us).n)
OrderIsLocal ==
  (call.op = "W" /\ res.t = "ok") =>
     Layout(call.fs, call.vals, TRUE) =
       Reordered(Layout(call.fs, call.vals, FALSE), Units(call.fs, call.vals), 0)

(* C20: a cast that has not returned can take a step. *)
NeverStuck == Running => ENABLED CastStep

StepInvariants == NeverBeyondCap /\ ReasonsByDirection /\ NamesAField /\ RefusedIsReported
ResultInvariants ==
  /\ WriteIsLayout /\ ReadInverts
  /\ ReadIsValid /\ WrittenIsValid
  /\ ReadWithinCeilings
  /\ ReadIsCoherent /\ WrittenIsCoherent

(* C03, C06, C19: a read only moves forward and changes nothing, a write   *)
(* only appends.                                                           *)
OnlyForward == [][/\ rp' >= rp
                  /\ (call.op = "R" => buf' = buf)
                  /\ (call.op = "W" => rp' = rp /\ IsPrefixOf(buf, buf'))]_<<buf, rp>>
=============================================================================
