------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Runs recorded from the real library, checked against the machine.       *)
(*                                                                         *)
(* A session is one stream and the casts a client made on it, one after    *)
(* another; each call carries what the client saw: the result, the error,  *)
(* the struct, the bytes appended, the read position, the largest single   *)
(* allocation.  The machine is run through the same calls; where it        *)
(* reaches a result that disagrees with the log it prints what it expected *)
(* and in which aspects they differ.  A session is accepted when some run  *)
(* of the machine agrees with every call.                                  *)
(***************************************************************************)
EXTENDS S2S, Props, Json, IOUtils

Schemas  == JsonDeserialize(IOEnv.SCHEMAS)
Sessions == ndJsonDeserialize(IOEnv.SESSIONS)

VARIABLES sid, ci
tvars == <<vars, sid, ci>>

Calls == Sessions[sid].calls
Logged == Calls[ci]

TInit ==
  /\ sid \in DOMAIN Sessions
  /\ ci = 1
  /\ buf = Sessions[sid].init
  /\ cap = IF Sessions[sid].cap < 0 THEN Unlimited ELSE Sessions[sid].cap
  /\ rp = Sessions[sid].rp
  /\ call = NoCall /\ stk = <<>> /\ res = NoRes

----------------------------------------------------------------------------
(* The struct the client built holds what it assigned. *)
RECURSIVE Assigned(_, _, _), AssignedOf(_, _, _)
AssignedOf(f, w, v) ==
  CASE f.k = "rec" -> Assigned(f.recs, w, v)
    [] f.k \in {"arec", "vrec"} -> Len(w) = Len(v) /\ \A j \in DOMAIN v : Assigned(f.recs, w[j], v[j])
    [] f.k = "maybe" -> Len(w) = Len(v) /\ (w # <<>> => AssignedOf(f.base, w[1], v[1]))
    [] f.k = "union" -> w.i = v.i /\ AssignedOf(f.alts[v.i], w.v, v.v)
    [] OTHER -> w = v
Assigned(fs, w, v) ==
  \A i \in DOMAIN fs : Access(fs, fs[i]) = "assignable" => AssignedOf(fs[i], w[i], v[i])

Aspects(c) ==
  LET ok == res.t = "ok"
      own == SubSeq(buf, call.at + 1, Len(buf))
      D(b, n) == IF b THEN {n} ELSE {}
  IN  D(c.exc # "", "exception")
      \cup D(c.ok # ok, "verdict")
      \cup D(~ c.ok /\ ~ ok /\ c.r # res.r, "reason")
      \cup D(~ c.ok /\ ~ ok /\ c.at # res.at, "field")
      \cup D(c.op = "W" /\ c.app # own, "bytes")
      \cup D(c.op = "R" /\ c.app # <<>>, "bytes")
      \cup D(c.op = "R" /\ c.ok = ok /\ (ok \/ res.r \in {EXCESS, NOTYPE}) /\ c.rp # rp, "position")
      \cup D(c.op = "W" /\ c.ok /\ c.rp # rp, "position")
      \cup D(c.op = "R" /\ (c.rp < call.at \/ c.rp > Len(buf)), "position")
      \cup D(c.op = "R" /\ c.ok /\ ok /\ ~ Alike(call.fs, c.post, Visible(call.fs, res.v)), "values")
      \cup D(c.op = "W" /\ ~ Alike(call.fs, c.post, c.pre), "mutated")
      \cup D(c.op = "W" /\ c.exc = "" /\ c.want # <<>> /\ ~ Assigned(call.fs, c.want, c.pre), "assigned")
      \cup D(c.op = "R" /\ c.alloc > Ceiling(call.fs) + 256, "allocation")

\* Every slot of the struct has one value it could be written as.
Unambiguous == \A i \in DOMAIN call.fs :
  IsDerived(call.fs, call.fs[i].id) => Cardinality(Candidates(call.fs, call.vals, call.fs[i].id)) = 1

Done == ~ Idle /\ res.t # "none"

TBegin ==
  /\ Idle /\ ci <= Len(Calls)
  /\ IF Logged.op = "R" THEN BeginRead(Schemas[Logged.s + 1], Logged.be)
     ELSE BeginWrite(Schemas[Logged.s + 1], Logged.be, Logged.pre)
  /\ UNCHANGED <<sid, ci>>

TStep == CastStep /\ UNCHANGED <<sid, ci>>

TReturn ==
  /\ Done
  /\ LET d == Aspects(Logged) IN
     IF d = {} THEN
       IF ci < Len(Calls) THEN TRUE ELSE PrintT("ACCEPT " \o ToString(Sessions[sid].id))
     ELSE
       /\ PrintT("DIFFER " \o ToJson([id |-> Sessions[sid].id, ci |-> ci, rp |-> rp,
              d |-> d \cup (IF Logged.op = "W" /\ Logged.ok /\ Unambiguous
                            /\ Logged.app # Layout(call.fs, call.vals, call.be) THEN {"layout"} ELSE {}),
              app |-> SubSeq(buf, call.at + 1, Len(buf)),
              res |-> IF res.t = "ok" /\ call.op = "R" THEN [res EXCEPT !.v = Visible(call.fs, @)]
                      ELSE IF res.t = "ok" THEN [t |-> "ok"] ELSE res]))
       /\ FALSE
  /\ call' = NoCall
  /\ ci' = ci + 1
  \* Where a read stops after a value it refuses is the library's choice.
  /\ rp' = IF call.op = "R" /\ res.t = "err" THEN Logged.rp ELSE rp
  /\ UNCHANGED <<buf, cap, stk, res, sid>>

TNext == TBegin \/ TStep \/ TReturn

TSpec == TInit /\ [][TNext]_tvars

\* States of different sessions are different; within one the machine is
\* determined by where it stands.
TView == <<sid, ci, call.op, res, Len(buf), rp,
           [i \in DOMAIN stk |-> <<stk[i].k, IF call.op = "W" THEN Len(stk[i].rest) ELSE Len(stk[i].acc)>>]>>
=============================================================================
