------------------------------ MODULE Histories -------------------------------
(* Events, as the driver (harness/) executes them, written by TLC *)
EXTENDS Machine, TLC, IOUtils, Json, CSV

HIST == IOEnv.HIST           \* the file; "": none
Seed == atoi(IOEnv.SEED)
NoCx == <<>>
Ev(o, v, z, a1, b1, u, cx, a, b) ==
  [o |-> o, v |-> v, z |-> z, x |-> a1, y |-> b1, u |-> u, cx |-> cx, a |-> a, b |-> b]
\* how 0..4: the way the driver builds the decimal
Loads(z, v, cx, how) == Ev("Load", "", z, 0, 0, 0, cx, <<how, v.k, v.s, v.e, 0, 0>>, <<v.c, v.l>>)
WriteHistory(H) == CSVWrite("%1$s", <<ToJson(H)>>, HIST)
=============================================================================
