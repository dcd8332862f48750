-------------------------------- MODULE S2S --------------------------------
(***************************************************************************)
(* The casts as a state machine over one stream.                           *)
(*                                                                         *)
(*   buf   bytes in the stream           rp   read position                *)
(*   cap   bytes the stream will hold: it refuses every byte beyond        *)
(*   call  the cast in progress          stk  its record frames            *)
(*   res   its result                                                      *)
(*                                                                         *)
(* One action per step a cast takes at one field: a leaf is transferred    *)
(* (WrLeaf, RdLeaf), a record is entered (WrOpen, RdOpen) and left         *)
(* (WrClose, RdClose), a check fails (WrReject, RdReject, RdNoType,        *)
(* RdTooLong), the stream runs dry or refuses (RdDry, WrRefused), the      *)
(* cast returns (WrReturn, RdReturn).                                      *)
(***************************************************************************)
EXTENDS Schema

VARIABLES buf, rp, cap, call, stk, res
vars == <<buf, rp, cap, call, stk, res>>

NoCall == [op |-> "none"]
NoRes  == [t |-> "none"]
Ok(v)  == [t |-> "ok", v |-> v]
Err(r, at) == [t |-> "err", r |-> r, at |-> at]
Unlimited == 1000000000

EXHAUST == "buffer_exhaustion"
INVALID == "validation_failure"
NOTYPE  == "type_deduction_failure"
CONTRA  == "found_contradicting_length"
EXCESS  == "excessive_length"

Idle == call.op = "none"
Running == call.op # "none" /\ res.t = "none"
Top == stk[Len(stk)]
Cur == Top.fs[Top.k]
AtEnd == Top.k > Len(Top.fs)
\* Errors are reported against the field of the schema passed to the cast.
Outermost == stk[1].fs[stk[1].k].id

----------------------------------------------------------------------------
(* Choosing an alternative; 0 when nothing applies. *)
FirstTrue(P(_), S) == IF \E j \in S : P(j) THEN CHOOSE j \in S : P(j) /\ \A i \in S : P(i) => j <= i ELSE 0

Select(fs, f, env) ==
  CASE f.ded.t = "match" ->
         LET x == Ext9(env[f.ded.id], FieldOf(fs, f.ded.id).sg)
             P(j) == f.ded.vals[j] = x
         IN  FirstTrue(P, DOMAIN f.ded.vals)
    [] f.ded.t = "compute" ->
         LET x == IF f.ded.e.o = "raw" THEN Ext9(env[f.ded.e.id], f.ded.e.sg) ELSE Nat9(Eval(f.ded.e, env))
             P(j) == f.ded.vals[j] = x
         IN  FirstTrue(P, DOMAIN f.ded.vals)
    [] f.ded.t = "ladder" ->
         LET P(j) == Eval(f.ded.preds[j], env)
         IN  FirstTrue(P, DOMAIN f.ded.preds)

\* A length is a number of elements; a negative one is astronomically large.
LenNum(f, v) == IF Negative(v, f.sg) THEN SAT ELSE NumSat(v)

----------------------------------------------------------------------------
(* Writing: what goes on the wire in place of the slots. *)
Candidates(fs, vs, id) ==
  {Nat9(Count(fs[j], vs[j])) : j \in {j \in DOMAIN fs : LenFrom(fs[j], id)}}
  \cup {fs[j].ded.vals[vs[j].i] :
          j \in {j \in DOMAIN fs : fs[j].k = "union" /\ fs[j].ded.t = "match" /\ fs[j].ded.id = id}}

FitsSlot(f, x) ==
  IF f.w < f.sz THEN \A i \in (f.w + 1)..9 : x[i] = 0
  ELSE x = Ext9(SubSeq(x, 1, f.sz), f.sg) /\ IsValue(f, x)

OnWire(fs, vs, i) ==
  LET f == fs[i] IN
  IF IsDerived(fs, f.id) THEN SubSeq(CHOOSE x \in Candidates(fs, vs, f.id) : TRUE, 1, f.sz)
  ELSE IF IsFrozen(f) THEN FrozenVal(f)
  ELSE vs[i]

(* What the wire holds of a struct: the caller's data, the library's slots *)
(* at every depth.  Callables and constraints are judged on these.         *)
RECURSIVE AsWritten(_, _), AsWrittenOf(_, _)
AsWrittenOf(f, v) ==
  CASE f.k = "rec" -> AsWritten(f.recs, v)
    [] f.k \in {"arec", "vrec"} -> [j \in DOMAIN v |-> AsWritten(f.recs, v[j])]
    [] f.k = "maybe" -> (IF v = <<>> THEN v ELSE <<AsWrittenOf(f.base, v[1])>>)
    [] f.k = "union" -> [i |-> v.i, v |-> AsWrittenOf(f.alts[v.i], v.v)]
    [] OTHER -> v
AsWritten(fs, vs) == [i \in DOMAIN fs |-> AsWrittenOf(fs[i], OnWire(fs, vs, i))]

WEnv(fs, vs) == [id \in Ids(fs) |->
  LET i == IndexOf(fs, id) IN AsWrittenOf(fs[i], OnWire(fs, vs, i))]

\* Sizes of the containers that are about to be written under a condition
\* and take their length from field id.
CondCounts(fs, vs, id, env) ==
  {Count(fs[j].base, vs[j][1]) :
     j \in {j \in DOMAIN fs : fs[j].k = "maybe" /\ LenFrom(fs[j].base, id)
                              /\ vs[j] # <<>> /\ Eval(fs[j].pred, env)}}
  \cup
  {Count(fs[j].alts[vs[j].i], vs[j].v) :
     j \in {j \in DOMAIN fs : fs[j].k = "union" /\ LenFrom(fs[j].alts[vs[j].i], id)}}

CondLenFails(fs, vs, i, v, env) ==
  IF fs[i].k = "scalar" /\ \E c \in CondCounts(fs, vs, fs[i].id, env) : c # LenNum(fs[i], v)
  THEN {CONTRA} ELSE {}

ConFails(f, v) == IF Satisfies(f, AsWrittenOf(f, v)) THEN {} ELSE {INVALID}

\* The checks a plain value of kind t faces, apart from its constraint.
ShapeFails(t, v, env) ==
  CASE t.k = "scalar" -> (IF FitsWidth(v, t.w) THEN {} ELSE {INVALID})
    [] t.k \in {"vec", "vrec"} ->
         (IF t.len.t = "fn" /\ Eval(t.len.e, env) # Count(t, v) THEN {CONTRA} ELSE {})
    [] OTHER -> {}

\* The reasons for which writing field i has to be refused; none: {}.
WriteFails(fs, vs, i) ==
  LET f == fs[i]
      env == WEnv(fs, vs)
  IN
  CASE IsDerived(fs, f.id) ->
         LET cs == Candidates(fs, vs, f.id) IN
         IF Cardinality(cs) > 1 THEN {CONTRA}
         ELSE LET x == CHOOSE x \in cs : TRUE
                  v == SubSeq(x, 1, f.sz)
              IN  IF ~ FitsSlot(f, x) THEN {INVALID}
                  ELSE ConFails(f, v) \cup CondLenFails(fs, vs, i, v, env)
    [] ~ IsDerived(fs, f.id) /\ IsFrozen(f) -> CondLenFails(fs, vs, i, FrozenVal(f), env)
    [] f.k = "maybe" ->
         IF Eval(f.pred, env) # (vs[i] # <<>>) THEN {INVALID}
         ELSE IF vs[i] = <<>> THEN {}
         ELSE ShapeFails(f.base, vs[i][1], env)
    [] f.k = "union" ->
         LET sel == IF f.ded.t = "match" THEN vs[i].i ELSE Select(fs, f, env)
             own == ConFails(f, vs[i])
         IN  IF sel = 0 THEN own \cup {NOTYPE}
             ELSE IF sel # vs[i].i THEN {INVALID}
             ELSE own \cup ConFails(f.alts[sel], vs[i].v)
                      \cup ShapeFails(f.alts[sel], vs[i].v, env)
    [] OTHER -> IF IsDerived(fs, f.id) \/ IsFrozen(f) THEN {}
                ELSE ConFails(f, vs[i]) \cup ShapeFails(f, vs[i], env)
                     \cup CondLenFails(fs, vs, i, vs[i], env)

\* What the field contributes: bytes of a leaf, or records to descend into.
LeafBytes(t, v, be) == IF t.k = "scalar" THEN EncScalar(v, t.w, be) ELSE Ordered(v, t.es, be)

Contents(fs, vs, i) ==
  LET f == fs[i]
      Of(t, v) == CASE t.k = "rec" -> [leaf |-> FALSE, t |-> t, recs |-> <<v>>]
                    [] t.k \in {"arec", "vrec"} -> [leaf |-> FALSE, t |-> t, recs |-> v]
                    [] OTHER -> [leaf |-> TRUE, t |-> t, v |-> v]
  IN
  CASE f.k = "maybe" ->
         IF vs[i] = <<>> THEN [leaf |-> FALSE, t |-> [recs |-> <<>>], recs |-> <<>>]
         ELSE Of(f.base, vs[i][1])
    [] f.k = "union" -> Of(f.alts[vs[i].i], vs[i].v)
    [] OTHER -> Of(f, OnWire(fs, vs, i))

----------------------------------------------------------------------------
WrFrame(fs, recs) == [fs |-> fs, vals |-> Head(recs), k |-> 1, rest |-> Tail(recs)]
Replace(fr) == [stk EXCEPT ![Len(stk)] = fr]
Advance(st) == [st EXCEPT ![Len(st)].k = @ + 1]

BeginWrite(fs, be, vs) ==
  /\ Idle
  /\ call' = [op |-> "W", fs |-> fs, be |-> be, vals |-> vs, at |-> Len(buf)]
  /\ stk' = <<WrFrame(fs, <<vs>>)>>
  /\ res' = NoRes
  /\ UNCHANGED <<buf, rp, cap>>

Writing == Running /\ call.op = "W"
Fails == WriteFails(Top.fs, Top.vals, Top.k)

Finish(r) == res' = r /\ stk' = <<>> /\ UNCHANGED <<rp, cap, call>>

WrReject ==
  /\ Writing /\ ~ AtEnd
  /\ \E r \in Fails : Finish(Err(r, Outermost))
  /\ UNCHANGED buf

WrLeaf ==
  /\ Writing /\ ~ AtEnd /\ Fails = {}
  /\ LET c == Contents(Top.fs, Top.vals, Top.k) IN
     /\ c.leaf
     /\ LET b == LeafBytes(c.t, c.v, call.be) IN
        /\ Len(buf) + Len(b) <= cap
        /\ buf' = buf \o b
  /\ stk' = Advance(stk)
  /\ UNCHANGED <<rp, cap, call, res>>

WrRefused ==
  /\ Writing /\ ~ AtEnd /\ Fails = {}
  /\ LET c == Contents(Top.fs, Top.vals, Top.k) IN
     /\ c.leaf
     /\ LET b == LeafBytes(c.t, c.v, call.be) IN
        /\ Len(buf) + Len(b) > cap
        /\ buf' = buf \o SubSeq(b, 1, cap - Len(buf))
  /\ Finish(Err(EXHAUST, Outermost))

WrOpen ==
  /\ Writing /\ ~ AtEnd /\ Fails = {}
  /\ LET c == Contents(Top.fs, Top.vals, Top.k) IN
     /\ ~ c.leaf
     /\ stk' = IF c.recs = <<>> THEN Advance(stk) ELSE Append(stk, WrFrame(c.t.recs, c.recs))
  /\ UNCHANGED <<buf, rp, cap, call, res>>

WrClose ==
  /\ Writing /\ AtEnd /\ Len(stk) > 1
  /\ stk' = IF Top.rest # <<>> THEN Replace(WrFrame(Top.fs, Top.rest))
            ELSE Advance(SubSeq(stk, 1, Len(stk) - 1))
  /\ UNCHANGED <<buf, rp, cap, call, res>>

WrReturn ==
  /\ Writing /\ AtEnd /\ Len(stk) = 1
  /\ Finish(Ok(call.vals))
  /\ UNCHANGED buf

----------------------------------------------------------------------------
RdFrame(fs, n, alt) == [fs |-> fs, vals |-> <<>>, k |-> 1, n |-> n, acc |-> <<>>, alt |-> alt]

BeginRead(fs, be) ==
  /\ Idle
  /\ call' = [op |-> "R", fs |-> fs, be |-> be, at |-> rp]
  /\ stk' = <<RdFrame(fs, 1, 0)>>
  /\ res' = NoRes
  /\ UNCHANGED <<buf, rp, cap>>

Reading == Running /\ call.op = "R"
REnv == [id \in {Top.fs[i].id : i \in 1..(Top.k - 1)} |-> Top.vals[IndexOf(Top.fs, id)]]

\* The value v of what is on the wire for the current field of st's top frame
\* (alternative alt of a union): stored, if its constraints hold.
Stored(st, v, alt) ==
  LET fr == st[Len(st)]
      f == fr.fs[fr.k]
      w == CASE f.k = "maybe" -> <<v>>
             [] f.k = "union" -> [i |-> alt, v |-> v]
             [] OTHER -> v
  IN  [ok |-> (f.k = "union" => Satisfies(f.alts[alt], v)) /\ (f.k # "maybe" => Satisfies(f, w)),
       stk |-> [st EXCEPT ![Len(st)].k = @ + 1, ![Len(st)].vals = Append(@, w)]]

Absent == Cur.k = "maybe" /\ ~ Eval(Cur.pred, REnv)
Chosen == IF Cur.k = "union" THEN Select(Top.fs, Cur, REnv) ELSE 0
NoType == Cur.k = "union" /\ Chosen = 0
Target == CASE Cur.k = "maybe" -> Cur.base
            [] Cur.k = "union" -> Cur.alts[Chosen]
            [] OTHER -> Cur
Present == ~ Absent /\ ~ NoType
\* Elements the target holds, and whether so many may be allocated.
Elements(t) ==
  CASE t.k \in {"vec", "vrec"} ->
         (IF t.len.t = "field" THEN LenNum(FieldOf(Top.fs, t.len.id), REnv[t.len.id])
          ELSE Eval(t.len.e, REnv))
    [] t.k \in {"arr", "arec"} -> t.n
    [] OTHER -> 1
TooLong == IsContainer(Target) /\ Elements(Target) > Target.bound \div Target.foot
LeafSize(t) == CASE t.k = "scalar" -> t.w
                 [] t.k = "arr" -> t.es * t.n
                 [] t.k = "vec" -> t.foot * Elements(t)
DecLeaf(t, b) == IF t.k = "scalar" THEN DecScalar(b, t.sz, call.be) ELSE Ordered(b, t.es, call.be)
Available == Len(buf) - rp

RdAbsent ==
  /\ Reading /\ ~ AtEnd /\ Absent
  /\ stk' = [stk EXCEPT ![Len(stk)].k = @ + 1, ![Len(stk)].vals = Append(@, <<>>)]
  /\ UNCHANGED <<buf, rp, cap, call, res>>

RdNoType ==
  /\ Reading /\ ~ AtEnd /\ NoType
  /\ Finish(Err(NOTYPE, Outermost))
  /\ UNCHANGED buf

RdTooLong ==
  /\ Reading /\ ~ AtEnd /\ Present /\ TooLong
  /\ Finish(Err(EXCESS, Outermost))
  /\ UNCHANGED buf

RdDry ==
  /\ Reading /\ ~ AtEnd /\ Present /\ IsLeaf(Target) /\ ~ TooLong
  /\ LeafSize(Target) > Available
  /\ Finish(Err(EXHAUST, Outermost))
  /\ UNCHANGED buf

RdLeaf ==
  /\ Reading /\ ~ AtEnd /\ Present /\ IsLeaf(Target) /\ ~ TooLong
  /\ LeafSize(Target) <= Available
  /\ LET n == LeafSize(Target)
         v == DecLeaf(Target, Take(buf, rp, n))
         s == Stored(stk, v, Chosen)
     IN  /\ rp' = rp + n
         /\ IF IsValue(Target, v) /\ s.ok THEN stk' = s.stk /\ UNCHANGED res
            ELSE stk' = <<>> /\ res' = Err(INVALID, Outermost)
  /\ UNCHANGED <<buf, cap, call>>

RdOpen ==
  /\ Reading /\ ~ AtEnd /\ Present /\ ~ IsLeaf(Target) /\ ~ TooLong
  /\ LET n == Elements(Target) IN
     IF n = 0
     THEN LET s == Stored(stk, <<>>, Chosen)
          IN  IF s.ok THEN stk' = s.stk /\ UNCHANGED res
              ELSE stk' = <<>> /\ res' = Err(INVALID, Outermost)
     ELSE stk' = Append(stk, RdFrame(Target.recs, n, Chosen)) /\ UNCHANGED res
  /\ UNCHANGED <<buf, rp, cap, call>>

RdClose ==
  /\ Reading /\ AtEnd /\ Len(stk) > 1
  /\ LET acc == Append(Top.acc, Top.vals)
         up == SubSeq(stk, 1, Len(stk) - 1)
         f == up[Len(up)].fs[up[Len(up)].k]
         t == CASE f.k = "maybe" -> f.base [] f.k = "union" -> f.alts[Top.alt] [] OTHER -> f
     IN  IF Len(acc) < Top.n
         THEN stk' = Replace([Top EXCEPT !.vals = <<>>, !.k = 1, !.acc = acc]) /\ UNCHANGED res
         ELSE LET s == Stored(up, IF t.k = "rec" THEN acc[1] ELSE acc, Top.alt)
              IN  IF s.ok THEN stk' = s.stk /\ UNCHANGED res
                  ELSE stk' = <<>> /\ res' = Err(INVALID, Outermost)
  /\ UNCHANGED <<buf, rp, cap, call>>

RdReturn ==
  /\ Reading /\ AtEnd /\ Len(stk) = 1
  /\ Finish(Ok(Top.vals))
  /\ UNCHANGED buf

\* The cast has returned to its caller.
Return == ~ Idle /\ res.t # "none" /\ call' = NoCall /\ UNCHANGED <<buf, rp, cap, stk, res>>

CastStep == \/ WrReject \/ WrLeaf \/ WrRefused \/ WrOpen \/ WrClose \/ WrReturn
            \/ RdAbsent \/ RdNoType \/ RdTooLong \/ RdDry \/ RdLeaf \/ RdOpen \/ RdClose \/ RdReturn

----------------------------------------------------------------------------
(* The wire format stated without the machine: what a struct looks like.   *)
RECURSIVE Layout(_, _, _), FieldLayout(_, _, _, _), Join(_, _, _)
Join(ss, a, b) ==
  IF a > b THEN <<>> ELSE IF a = b THEN ss[a]
  ELSE LET m == (a + b) \div 2 IN Join(ss, a, m) \o Join(ss, m + 1, b)
Concat(ss) == LET t == ss IN Join(t, 1, Len(t))
FieldLayout(fs, vs, i, be) ==
  LET c == Contents(fs, vs, i) IN
  IF c.leaf THEN LeafBytes(c.t, c.v, be)
  ELSE Concat([j \in DOMAIN c.recs |-> Layout(c.t.recs, c.recs[j], be)])
Layout(fs, vs, be) == Concat([i \in DOMAIN fs |-> FieldLayout(fs, vs, i, be)])

(* What a caller sees of a struct: hidden fields are not observable. *)
RECURSIVE Visible(_, _), VisibleOf(_, _)
VisibleOf(f, v) ==
  CASE f.k = "rec" -> Visible(f.recs, v)
    [] f.k \in {"arec", "vrec"} -> [j \in DOMAIN v |-> Visible(f.recs, v[j])]
    [] f.k = "maybe" -> (IF v = <<>> THEN v ELSE <<VisibleOf(f.base, v[1])>>)
    [] f.k = "union" -> [i |-> v.i, v |-> VisibleOf(f.alts[v.i], v.v)]
    [] OTHER -> v
Visible(fs, vs) ==
  [i \in DOMAIN fs |-> IF Access(fs, fs[i]) = "hidden" THEN <<>> ELSE VisibleOf(fs[i], vs[i])]

=============================================================================
