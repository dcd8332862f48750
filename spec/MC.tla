-------------------------------- MODULE MC --------------------------------
(***************************************************************************)
(* Exhaustive exploration, and the source of the behaviours replayed in    *)
(* the real code.  A job names a schema, a script and finite sets of       *)
(* inputs; TLC runs the machine on every combination:                      *)
(*   read   every byte string over an alphabet up to a length, or every    *)
(*          one of a list: read, write the struct back, read again         *)
(*   write  every struct of a product of candidate values, on streams that *)
(*          refuse at every given point: write, read back                  *)
(*   cut    as write, then the stream is cut short and read                *)
(*   frames every sequence of n of the structs, in every combination of    *)
(*          byte orders, written back to back, then read                   *)
(***************************************************************************)
EXTENDS S2S, Props, Json, IOUtils

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Jobs    == ndJsonDeserialize(IOEnv.JOBS)

VARIABLES job,     \* index of the job
          ord,     \* byte orders, one per frame
          inp,     \* what the client supplies: structs (write, cut, frames)
          pc,      \* position in the script
          hist     \* results so far
mvars == <<vars, job, ord, inp, pc, hist>>

J == Jobs[job]
FS(n) == Schemas[J.s[n] + 1]

RECURSIVE Tuples(_)
Tuples(ss) == IF ss = <<>> THEN {<<>>}
              ELSE {<<x>> \o t : x \in {Head(ss)[i] : i \in DOMAIN Head(ss)}, t \in Tuples(Tail(ss))}
Strings(alpha, n) == [1..n -> {alpha[i] : i \in DOMAIN alpha}]
AsSeq(f, n) == [i \in 1..n |-> f[i]]

Script ==
  CASE J.kind = "read" -> <<"R", "B", "R">>
    [] J.kind = "write" -> <<"W", "R">>
    [] J.kind = "cut" -> <<"W", "C", "R">>
    [] J.kind = "frames" -> [i \in 1..(2 * Len(J.s)) |-> IF i <= Len(J.s) THEN "W" ELSE "R"]

\* Which frame step p of the script is about.
Frame(p) == IF J.kind = "frames" THEN (IF p <= Len(J.s) THEN p ELSE p - Len(J.s)) ELSE 1

MInit ==
  /\ job \in DOMAIN Jobs
  /\ ord \in [1..Len(J.s) -> {J.ord[i] : i \in DOMAIN J.ord}]
  /\ IF J.kind = "read"
     THEN /\ buf \in (IF J.bytes = <<>> THEN UNION {Strings(J.alpha, n) : n \in J.min..J.max}
                     ELSE {J.bytes[i] : i \in DOMAIN J.bytes})
          /\ inp = <<>>
     ELSE /\ buf = J.init
          /\ inp \in [1..Len(J.s) -> Tuples(J.cand)]
  /\ cap \in (IF J.caps = <<>> THEN {Unlimited} ELSE {J.caps[i] : i \in DOMAIN J.caps})
  /\ rp = Len(J.init)
  /\ call = NoCall /\ stk = <<>> /\ res = NoRes
  /\ pc = 1 /\ hist = <<>>

Over == pc > Len(Script) \/ (hist # <<>> /\ hist[Len(hist)].t = "err")
Step == Script[pc]

MBegin ==
  /\ Idle /\ ~ Over
  /\ CASE Step = "R" -> BeginRead(FS(Frame(pc)), ord[Frame(pc)])
       [] Step = "W" -> BeginWrite(FS(Frame(pc)), ord[Frame(pc)], inp[Frame(pc)])
       [] Step = "B" -> BeginWrite(FS(1), ord[1], hist[1].v)
       [] Step = "C" -> FALSE
  /\ UNCHANGED <<job, ord, inp, pc, hist>>

\* The environment: somebody truncates the file.
MCut ==
  /\ Idle /\ ~ Over /\ Step = "C"
  /\ \E n \in Len(J.init)..(Len(buf) - 1) : buf' = SubSeq(buf, 1, n)
  /\ pc' = pc + 1
  /\ UNCHANGED <<rp, cap, call, stk, res, job, ord, inp, hist>>

MStep == CastStep /\ UNCHANGED <<job, ord, inp, pc, hist>>

Outcome ==
  LET w == IF call.op = "W" THEN Own ELSE <<>> IN
  IF res.t = "ok" THEN [t |-> "ok", v |-> res.v, app |-> w, rp |-> rp, op |-> call.op]
  ELSE [t |-> "err", r |-> res.r, at |-> res.at, app |-> w, rp |-> rp, op |-> call.op]

MReturn ==
  /\ ~ Idle /\ res.t # "none"
  /\ hist' = Append(hist, Outcome)
  /\ pc' = pc + 1
  /\ Return
  /\ UNCHANGED <<job, ord, inp>>

MNext == MBegin \/ MCut \/ MStep \/ MReturn
MSpec == MInit /\ [][MNext]_mvars

----------------------------------------------------------------------------
(* A finished behaviour, for the replay. *)
Shown(i) ==
  IF hist[i].op = "R" /\ hist[i].t = "ok"
  THEN [hist[i] EXCEPT !.v = Visible(FS(IF J.kind = "frames" THEN i - Len(J.s) ELSE 1), @)]
  ELSE IF hist[i].t = "ok" THEN [hist[i] EXCEPT !.v = <<>>]
  ELSE hist[i]
InitialBytes ==
  IF J.kind \in {"read", "cut"} THEN SubSeq(buf, 1, Len(buf) - (IF J.kind = "read" /\ Len(hist) > 1 THEN Len(hist[2].app) ELSE 0))
  ELSE J.init
Emit ==
  (Idle /\ Over /\ J.emit) =>
     PrintT("BEHAVES " \o ToJson([job |-> J.id, ord |-> ord, inp |-> inp, init |-> InitialBytes,
                                  cap |-> IF cap = Unlimited THEN -1 ELSE cap,
                                  hist |-> [i \in DOMAIN hist |-> Shown(i)]]))

----------------------------------------------------------------------------
(* C01: what is written reads back, provided its containers are within the *)
(* ceilings, which only reads enforce; what is read writes back.           *)
RoundTrip ==
  (Idle /\ J.kind = "write" /\ Len(hist) = 2 /\ Within(FS(1), AsWritten(FS(1), inp[1]))) =>
     /\ hist[2].t = "ok"
     /\ hist[2].v = AsWritten(FS(1), inp[1])
     /\ rp = Len(buf)
WriteBack ==
  (Idle /\ J.kind = "read" /\ Len(hist) >= 2 /\ hist[1].t = "ok") =>
     /\ hist[2].t = "ok"
     /\ hist[2].app = SubSeq(buf, 1, hist[1].rp)

(* C05: a cut fails, for want of bytes, at the owner of the first missing. *)
RECURSIVE Owner(_, _, _, _, _)
Owner(fs, vs, be, i, n) ==
  LET k == Len(FieldLayout(fs, vs, i, be)) IN
  IF n < k THEN fs[i].id ELSE Owner(fs, vs, be, i + 1, n - k)
CutFails ==
  (Idle /\ J.kind = "cut" /\ Len(hist) = 2 /\ Within(FS(1), AsWritten(FS(1), inp[1]))) =>
     /\ hist[2].t = "err" /\ hist[2].r = EXHAUST
     /\ hist[2].at = Owner(FS(1), inp[1], ord[1], 1, Len(buf) - Len(J.init))

(* C06: a write that fails a check has written what precedes the field. *)
RECURSIVE Before(_, _, _, _)
Before(fs, vs, be, id) == Concat([i \in 1..(IndexOf(fs, id) - 1) |-> FieldLayout(fs, vs, i, be)])
FailedWrite ==
  (call.op = "W" /\ res.t = "err" /\ res.r # EXHAUST) =>
     LET f == FieldOf(call.fs, res.at)
         b == Before(call.fs, call.vals, call.be, res.at)
         plain == IsLeaf(f) \/ (f.k = "maybe" /\ (IsLeaf(f.base) \/ call.vals[IndexOf(call.fs, f.id)] = <<>>))
                    \/ (f.k = "union" /\ IsLeaf(f.alts[call.vals[IndexOf(call.fs, f.id)].i]))
     IN  IsPrefixOf(b, Own) /\ (plain => Own = b)

(* C19: back to back, every struct comes back. *)
FramesHold ==
  (Idle /\ J.kind = "frames" /\ Len(hist) = 2 * Len(J.s) /\ hist[Len(hist)].t = "ok") =>
     \A n \in 1..Len(J.s) : hist[Len(J.s) + n].v = AsWritten(FS(n), inp[n])
FramesRead ==
  (Idle /\ J.kind = "frames" /\ Len(hist) > Len(J.s)
        /\ \A n \in 1..Len(J.s) : Within(FS(n), AsWritten(FS(n), inp[n]))) => hist[Len(hist)].t = "ok"

MView == <<job, ord, inp, cap, pc, call.op, res, buf, rp,
           [i \in DOMAIN stk |-> <<stk[i].k, IF call.op = "W" THEN Len(stk[i].rest) ELSE Len(stk[i].acc)>>],
           Len(hist)>>
=============================================================================
