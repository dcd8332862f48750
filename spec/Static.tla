------------------------------- MODULE Static -------------------------------
(***************************************************************************)
(* What the compiler said about schemas, against the static semantics.     *)
(*   compiles  a program declaring, reading and writing a schema: accepted *)
(*             exactly when the schema is well formed                      *)
(*   access    what operator[] grants for an id of a schema                *)
(***************************************************************************)
EXTENDS Schema, Json, IOUtils

Facts == ndJsonDeserialize(IOEnv.FACTS)

VARIABLE f
X == Facts[f]

Granted(fs, id) == IF Has(fs, id) THEN Access(fs, FieldOf(fs, id)) ELSE "hidden"

Expected ==
  CASE X.fact = "compiles" -> WellFormed(X.fs)
    [] X.fact = "access" ->
         LET a == Granted(X.fs, X.id) IN
         [cread |-> a # "hidden", mread |-> a # "hidden", assign |-> a = "assignable",
          cassign |-> FALSE, typed |-> a # "hidden"]

SInit == f \in DOMAIN Facts
SNext == FALSE /\ UNCHANGED f
SSpec == SInit /\ [][SNext]_f
Judge == IF Expected = X.seen THEN PrintT("HOLDS " \o ToString(X.n))
         ELSE PrintT("BROKEN " \o ToString(X.n) \o " " \o ToJson(Expected))
=============================================================================
