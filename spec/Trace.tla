-------------------------------- MODULE Trace ---------------------------------
(***************************************************************************)
(* Trace validation: every line of the file TRACE is a history of the real *)
(* library, a sequence of events of Machine.tla.  Each of them is a        *)
(* behaviour of the machine iff every event is one of its transitions, in  *)
(* the state that the events before it led to.                             *)
(* An event that isn't is reported, in a line of its own, with the aspects *)
(* in which it differs; the history then goes on from the state logged.    *)
(* (A history is linear, so the view is its number and the position in it.)*)
(***************************************************************************)
EXTENDS Machine, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, regs, bad
vars == <<tr, l, regs, bad>>

Init == tr \in 1..Len(Traces) /\ l = 1 /\ regs = MachineInit /\ bad = 0

Step == LET ev == Traces[tr][l]
            N  == Apply(regs, ev.d)
            J  == Judge(ev, regs, N)
        IN /\ regs' = N
           /\ bad' = IF J = {} THEN bad ELSE bad + 1
           /\ J # {} => PrintT(<<"BAD", tr, l, ev.o, ev.v, J, Tags(ev, regs)>>)

Next == /\ l <= Len(Traces[tr])
        /\ Step
        /\ l' = l + 1
        /\ UNCHANGED tr

Spec == Init /\ [][Next]_vars
View == <<tr, l>>

\* every event was looked at: the number of distinct states is that of events, plus one per trace
RECURSIVE Total(_, _)
Total(i, j) == IF i > j THEN 0 ELSE IF i = j THEN Len(Traces[i]) + 1
               ELSE LET m == (i + j) \div 2 IN Total(i, m) + Total(m + 1, j)
Consumed == TLCGet("distinct") = Total(1, Len(Traces)) /\ PrintT(<<"CONSUMED", Len(Traces), TLCGet("distinct")>>)
=============================================================================
