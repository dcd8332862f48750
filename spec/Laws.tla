-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Properties that relate several recorded calls, stated over the log      *)
(* itself rather than against one run of the machine.                      *)
(*   roundtrip  a struct written, then read from the bytes written         *)
(*   writeback  bytes read, then the struct written                        *)
(*   same       the same calls made in several ways (stream kinds, in      *)
(*              constant evaluation): all observations are equal           *)
(*   alone      calls of one session against the same calls made each on a *)
(*              stream of its own                                          *)
(*   frames     structs written back to back, then read in that order      *)
(*   returns    every call returned normally                              *)
(* and, for structs too large to be taken through the machine record by    *)
(* record, against the wire format stated as a function:                   *)
(*   layout     a struct written: the bytes are its layout, or the part of *)
(*              it the stream had room for                                 *)
(*   decode     the layout of a struct, or part of it, read                *)
(***************************************************************************)
EXTENDS S2S, Props, Json, IOUtils

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Groups  == ndJsonDeserialize(IOEnv.GROUPS)

VARIABLE g
lvars == <<vars, g>>

X == Groups[g]
FsOf(c) == Schemas[c.s + 1]

\* The value a caller must get back after writing the struct logged in c.
Back(c) == Visible(FsOf(c), AsWritten(FsOf(c), c.pre))
Fits(c) == Within(FsOf(c), AsWritten(FsOf(c), c.pre))

RoundTripLaw ==
  LET w == X.calls[1] IN
  (w.ok /\ Fits(w)) =>
     /\ Len(X.calls) = 2
     /\ LET r == X.calls[2] IN
        r.ok /\ r.rp = X.rp + Len(w.app) /\ Alike(FsOf(w), r.post, Back(w))

WriteBackLaw ==
  LET r == X.calls[1] IN
  r.ok => /\ Len(X.calls) >= 2
          /\ X.calls[2].ok
          /\ X.calls[2].app = SubSeq(X.init, X.rp + 1, r.rp)

Seen(c) == [op |-> c.op, ok |-> c.ok, r |-> c.r, at |-> c.at, app |-> c.app, exc |-> c.exc,
            took |-> IF c.ok THEN c.took ELSE 0]
SeenAlike(c, d) == Seen(c) = Seen(d) /\ Alike(FsOf(c), c.post, d.post)
SameLaw == \A i \in DOMAIN X.runs :
  /\ Len(X.runs[i]) = Len(X.runs[1])
  /\ \A j \in DOMAIN X.runs[1] : SeenAlike(X.runs[1][j], X.runs[i][j])

AloneLaw == /\ \A i \in DOMAIN X.calls : SeenAlike(X.calls[i], X.alone[i])
            /\ \A i \in DOMAIN X.calls : X.calls[i].op = "W" => Alike(FsOf(X.calls[i]), X.calls[i].post, X.calls[i].pre)

FramesLaw ==
  LET n == X.n IN
  (Len(X.calls) = 2 * n /\ \A i \in 1..n : X.calls[i].ok /\ Fits(X.calls[i])) =>
     \A i \in 1..n : X.calls[n + i].ok /\ Alike(FsOf(X.calls[i]), X.calls[n + i].post, Back(X.calls[i]))
                     /\ X.calls[n + i].took = Len(X.calls[i].app)
FramesComplete ==
  LET n == X.n IN
  (Len(X.calls) > n /\ \A i \in 1..n : X.calls[i].ok /\ Fits(X.calls[i])) => Len(X.calls) = 2 * n

(* The struct X.want (or the one logged) can be written and read. *)
Good(fs, v) ==
  /\ \A i \in DOMAIN fs : IsDerived(fs, fs[i].id) => Cardinality(Candidates(fs, v, fs[i].id)) = 1
  /\ LET a == AsWritten(fs, v) IN Valid(fs, a) /\ Coherent(fs, a)
Readable(fs, v) == Within(fs, AsWritten(fs, v))
\* The field that owns byte n + 1 of a layout.
RECURSIVE OwnerFrom(_, _, _, _)
OwnerFrom(fs, ls, i, n) == IF n < ls[i] THEN fs[i].id ELSE OwnerFrom(fs, ls, i + 1, n - ls[i])
Owner(fs, v, be, n) == LET ls == [i \in DOMAIN fs |-> Len(FieldLayout(fs, v, i, be))] IN OwnerFrom(fs, ls, 1, n)

LayoutLaw ==
  LET w == X.calls[1]
      fs == FsOf(w)
      room == IF X.cap < 0 THEN Unlimited ELSE X.cap - Len(X.init)
  IN  /\ Alike(fs, w.post, w.pre)
      /\ Good(fs, w.pre) =>
           LET b == Layout(fs, w.pre, w.be) IN
           IF Len(b) <= room THEN w.ok /\ w.app = b
           ELSE ~ w.ok /\ w.r = EXHAUST /\ w.app = SubSeq(b, 1, room) /\ w.at = Owner(fs, w.pre, w.be, room)

\* X.init is the layout of X.want, perhaps cut short, perhaps with more behind it.
DecodeLaw ==
  LET r == X.calls[1]
      fs == FsOf(r)
  IN  (Good(fs, X.want) /\ Readable(fs, X.want)) =>
        LET b == Layout(fs, X.want, r.be) IN
        CASE IsPrefixOf(b, X.init) -> r.ok /\ r.rp = Len(b) /\ Alike(fs, r.post, Visible(fs, AsWritten(fs, X.want)))
          [] IsPrefixOf(X.init, b) /\ X.init # b -> ~ r.ok /\ r.r = EXHAUST /\ r.at = Owner(fs, X.want, r.be, Len(X.init))
          [] OTHER -> TRUE

(* Every call came back, with a reason its direction knows. *)
ReturnsLaw ==
  \A i \in DOMAIN X.calls :
     LET c == X.calls[i] IN
     /\ c.exc = ""
     /\ ~ c.ok => /\ c.r \in (IF c.op = "R" THEN {EXHAUST, INVALID, NOTYPE, EXCESS} ELSE {EXHAUST, INVALID, NOTYPE, CONTRA})
                  /\ c.at \in Ids(FsOf(c))

Holds ==
  CASE X.law = "roundtrip" -> RoundTripLaw
    [] X.law = "writeback" -> WriteBackLaw
    [] X.law = "same" -> SameLaw
    [] X.law = "alone" -> AloneLaw
    [] X.law = "returns" -> ReturnsLaw
    [] X.law = "layout" -> LayoutLaw
    [] X.law = "decode" -> DecodeLaw
    [] X.law = "frames" -> FramesComplete /\ FramesLaw

LInit ==
  /\ g \in DOMAIN Groups
  /\ buf = <<>> /\ rp = 0 /\ cap = Unlimited /\ call = NoCall /\ stk = <<>> /\ res = NoRes
LNext == FALSE /\ UNCHANGED lvars
LSpec == LInit /\ [][LNext]_lvars
LView == g
Judge == IF Holds THEN PrintT("HOLDS " \o ToString(X.id)) ELSE PrintT("BROKEN " \o ToString(X.id))
=============================================================================
