--------------------------------- MODULE Walk ---------------------------------
(***************************************************************************)
(* The machine of Machine.tla running on its own: TLC chooses operations,  *)
(* registers and contexts, the specification gives the next state.         *)
(*                                                                         *)
(* TLC checks on these behaviours what holds of sequences of operations:   *)
(* conditions only accumulate, no register but the receivers changes, and  *)
(* results are numbers that their context can represent.                   *)
(* Each behaviour is written as a history, which the driver executes, and  *)
(* Trace.tla judges.                                                       *)
(*                                                                         *)
(* With -simulate, operations are chosen at random (SIM = 1); without,     *)
(* all behaviours of DEPTH operations are visited.                         *)
(***************************************************************************)
EXTENDS Histories

Sim   == IOEnv.SIM = "1"
Depth == atoi(IOEnv.DEPTH)
Regs  == IF Sim THEN 1..5 ELSE 1..2

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Chance(n) == Sim /\ RandomElement(1..n) = 1

VARIABLES R, hist, n, last      \* last: the last event
vars == <<R, hist, n, last>>
\* behaviours differ if what the registers hold does (and how many operations led there)
View == IF Sim THEN <<R, hist, n, last>> ELSE <<R, <<>>, n, last>>

-----------------------------------------------------------------------------
(* Contexts and values that operations meet *)
Ctxs == IF Sim THEN {<<1, 3, 0, -1, 1>>, <<2, 0, 0, -3, 3>>, <<3, 5, 0, -5, 4>>, <<4, 4, 0, -9, 9>>, <<5, 1, 0, 0, 0>>,
                     <<16, 0, 0, 0, 0>>, <<19, 6, 0, -40, 40>>, <<20, 2, 0, 0, 0>>, <<38, 0, 0, -95, 96>>,
                     <<3, 0, 1, -6, 6>>, <<19, 3, 1, 0, 0>>, <<0, 2, 1, -30, 30>>}
        ELSE {<<1, 0, 0, -1, 1>>, <<2, 3, 0, -2, 2>>, <<2, 4, 1, -2, 2>>}
Two(k) == BPow(BI(2), k)
Nines(k) == BSub(BPow10(k), BOne)
Coefs == IF Sim THEN {BZero, BOne, BI(5), BI(9), BI(25), BI(95), BI(999), BI(1000), BI(12345), Nines(16), Nines(19), Nines(20),
                      Two(31), Two(32), BSub(Two(63), BOne), Two(63), BSub(Two(64), BI(2)), BSub(Two(64), BOne), Two(64),
                      BAdd(Two(64), BOne), BPow10(19), BPow10(20), BMul(BI(5), BPow10(18)), Nines(39)}
         ELSE {BZero, BOne, BI(95)}
Exps  == IF Sim THEN {-41, -20, -19, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 9, 19, 20} ELSE {-3, 0, 2}
FinVals == {Fin(s, k, e) : s \in {0, 1}, k \in Coefs, e \in Exps}
Specials == {InfV(0), InfV(1), NaNV(2, 1, BZero), NaNV(2, 0, BI(7)), NaNV(3, 1, BI(12)), NaNV(3, 0, BZero)}
\* a random one isn't special too often
Vals  == IF Sim THEN (IF Chance(9) THEN Specials ELSE FinVals) ELSE {ZeroV(1, -2), Fin(0, BI(95), 0), Fin(1, BOne, 2), InfV(0), NaNV(3, 1, BI(7))}

-----------------------------------------------------------------------------
Small(v) == IsFin(v) => BDigits(v.c) <= 150 /\ v.e < 300 /\ v.e > -300
\* aligning operands is affordable
Allowed == \A i \in DOMAIN R : Small(Val(R[i]))
NewVal(r, o) == LET w == NewReg(o.v, <<r.P, r.R, r.M, r.lo, r.hi>>, r.T, 0)
                    S == Conds(r.q) \cup o.f
                IN [w EXCEPT !.q = Mask(S)]
Panics(z, o) == o.inv /\ R[z].M = 1

\* The event ev, with the outcome o for its receiver; a receiver is loaded again after a panic.
Fire(ev, o) ==
  /\ n' = n + 1
  /\ last' = [o |-> ev.o, z |-> ev.z, u |-> IF ev.o = "QuoRem" THEN ev.u ELSE 0, cx |-> ev.cx, pan |-> Panics(ev.z, o)]
  /\ IF Panics(ev.z, o)
     THEN LET cx == <<R[ev.z].P, R[ev.z].R, R[ev.z].M, R[ev.z].lo, R[ev.z].hi>>
          IN /\ hist' = hist \o <<ev, Loads(ev.z, OneV, cx, 0)>>
             /\ R' = [R EXCEPT ![ev.z] = NewReg(OneV, cx, 0, 0)]
     ELSE /\ hist' = Append(hist, ev)
          /\ R' = [R EXCEPT ![ev.z] = NewVal(R[ev.z], o)]

\* the context given to a method of a Context: it has the mode of the receiver
CxFor(z) == LET S == {k \in Ctxs : k[3] = R[z].M} IN IF Sim THEN Pick(S) ELSE S
Vias(z) == {<<"m", NoCx>>} \cup {<<"c", k>> : k \in CxFor(z)}

Go(ev) == Fire(ev, Arith(ev, R))
DoBinary ==
  \E o \in Pick(BinaryOps), z \in Pick(Regs), x \in Pick(Regs), y \in Pick(Regs) : \E w \in Pick(Vias(z)) :
    Go(Ev(o, w[1], z, x, y, 0, w[2], <<>>, <<>>))
DoFMA ==
  \E z \in Pick(Regs), x \in Pick(Regs), y \in Pick(Regs), u \in Pick(Regs) : \E w \in Pick(Vias(z)) :
    Go(Ev("FMA", w[1], z, x, y, u, w[2], <<>>, <<>>))
DoUnary ==
  \E o \in Pick(UnaryOps), z \in Pick(Regs), x \in Pick(Regs) : \E w \in Pick(Vias(z)) :
    LET v == IF o \in {"Abs", "Neg", "Set"} \/ w[1] = "c" THEN w
             ELSE <<"c", CHOOSE k \in Ctxs : k[3] = R[z].M>>
    IN Go(Ev(o, v[1], z, x, 0, 0, v[2], <<>>, <<>>))
DoInPlace ==
  \E o \in Pick(InPlaceOps), z \in Pick(Regs) : \E w \in Pick(Vias(z)) :
    \E a \in Pick(CASE o = "Quantize" -> -4..5 [] o = "Round" -> 1..20 [] OTHER -> {0}) :
      Go(Ev(o, w[1], z, 0, 0, 0, w[2], IF o \in {"Quantize", "Round"} THEN <<a>> ELSE <<>>, <<>>))
DoQuoRem ==
  \E z \in Pick(Regs), u \in Pick(Regs), x \in Pick(Regs), y \in Pick(Regs) : \E w \in Pick(Vias(z)) :
    LET ev == Ev("QuoRem", w[1], z, x, y, u, w[2], <<>>, <<>>)
        qr == QuoRem(CtxIn(ev, R), Val(R[x]), Val(R[y]))
    IN /\ z # u /\ R[z].M = 0 /\ R[u].M = 0
       /\ n' = n + 1 /\ hist' = Append(hist, ev)
       /\ last' = [o |-> "QuoRem", z |-> z, u |-> u, cx |-> ev.cx, pan |-> FALSE]
       /\ R' = [R EXCEPT ![z] = NewVal(R[z], qr[1]), ![u] = NewVal(R[u], qr[2])]
DoQuiet ==
  \E o \in Pick({"Copy", "CopyAbs", "CopyNeg", "CopySign", "Canonical", "SetSignbit", "SetInf", "SetScale"}),
     z \in Pick(Regs), x \in Pick(Regs), y \in Pick(Regs) :
    \E a \in Pick(IF o = "SetScale" THEN {-2, 0, 3} ELSE {0, 1}) :
      LET ev == CASE o = "CopySign" -> Ev(o, "m", z, x, y, 0, NoCx, <<>>, <<>>)
                  [] o \in {"SetSignbit", "SetInf", "SetScale"} -> Ev(o, "m", z, 0, 0, 0, NoCx, <<a>>, <<>>)
                  [] OTHER -> Ev(o, "m", z, x, 0, 0, NoCx, <<>>, <<>>)
      IN Fire(ev, Out(Quiet(ev, R), {}))
\* assignments by the user: a new decimal, another context
DoLoad ==
  \E z \in Pick(Regs), k \in Pick(Ctxs), how \in Pick(0..4) : \E v \in Pick(Vals) :
    LET ev == Loads(z, v, k, how)
    IN /\ n' = n + 1 /\ hist' = Append(hist, ev) /\ R' = [R EXCEPT ![z] = Assigned(ev, R)]
       /\ last' = [o |-> "Load", z |-> z, u |-> 0, cx |-> NoCx, pan |-> FALSE]
DoCtx ==
  \E z \in Pick(Regs), k \in Pick(Ctxs), q \in Pick({0, Inexact + Rounded, InvalidOp}) :
    LET ev == Ev("SetCtx", "", z, 0, 0, 0, k, <<0, q>>, <<>>)
    IN /\ n' = n + 1 /\ hist' = Append(hist, ev) /\ R' = [R EXCEPT ![z] = Assigned(ev, R)]
       /\ last' = [o |-> "SetCtx", z |-> z, u |-> 0, cx |-> NoCx, pan |-> FALSE]
\* what only looks
DoLook ==
  \E o \in Pick({"Cmp", "String", "Preds", "Int", "Decompose"}), x \in Pick(Regs), y \in Pick(Regs) :
    LET ev == Ev(o, "m", 0, x, IF o = "Cmp" THEN y ELSE 0, 0, NoCx, IF o = "Decompose" THEN <<-1>> ELSE <<>>, <<>>)
    IN /\ (o = "Int" => IsFin(Val(R[x])))
       /\ n' = n + 1 /\ hist' = Append(hist, ev) /\ R' = R
       /\ last' = [o |-> o, z |-> 0, u |-> 0, cx |-> NoCx, pan |-> FALSE]

Begin(k, v, i) == Loads(i, v, k, i % 4)
Init ==
  \* (TLC's simulator starts from one of a set of states: they differ in the first load only)
  /\ \E k \in IF Sim THEN {<<16, 0, 0, 0, 0>>} ELSE Ctxs, v \in Vals, k2 \in IF Sim THEN {<<16, 0, 0, 0, 0>>} ELSE Ctxs, w \in IF Sim THEN {OneV} ELSE Vals :
       /\ hist = <<Begin(k, v, 1), Begin(k2, w, 2)>>
       /\ R = [MachineInit EXCEPT ![1] = NewReg(v, k, 0, 0), ![2] = NewReg(w, k2, 0, 0)]
  /\ n = 0 /\ last = [o |-> "Load", z |-> 1, u |-> 0, cx |-> NoCx, pan |-> FALSE]
Next ==
  /\ n < Depth
  /\ IF Sim /\ n < 4 THEN DoLoad
     ELSE IF ~Allowed THEN DoLoad
     ELSE DoBinary \/ DoFMA \/ DoUnary \/ DoInPlace \/ DoQuoRem \/ DoQuiet
          \/ (Sim /\ (DoLoad \/ DoCtx \/ DoLook \/ DoBinary \/ DoBinary \/ DoUnary))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Rec == {last'.z, last'.u}
\* conditions stay until the user clears them
Accumulate == last'.o \in {"Load", "SetCtx"} \/ last'.pan \/ \A i \in DOMAIN R : Conds(R[i].q) \subseteq Conds(R'[i].q)
Frame == \A i \in DOMAIN R \ Rec : R'[i] = R[i]
\* no operation changes a context but its conditions
KeepCtx == last'.o \in {"Load", "SetCtx"} \/ last'.pan \/ \A i \in DOMAIN R : SameCtx(R[i], R'[i])
Rounding == BinaryOps \cup {"FMA", "Sqrt", "Abs", "Neg", "Set", "NextPlus", "NextMinus", "Round", "Reduce", "QuoRem", "Quantize"}
CtxLast == IF last'.cx = NoCx THEN CtxOf(R[last'.z]) ELSE Ctx(last'.cx[1], last'.cx[2], last'.cx[3], last'.cx[4], last'.cx[5])
\* rounding a result doesn't change it
Representable ==
  last'.o \in Rounding /\ ~last'.pan =>
    \A i \in Rec \ {0} :
      LET cx == CtxLast v == Val(R'[i])
          o == FinishV(cx, v)
      IN IsFin(v) /\ R[i].M = 0 /\ last'.o # "Round" => o.v = v /\ o.f \subseteq {Subnormal}
\* what the representation says of the value
Canonic == \A i \in DOMAIN R : RepOK(R'[i])
Steps == [][Accumulate /\ Frame /\ KeepCtx /\ Representable /\ Canonic]_vars

Write == IF n = Depth /\ HIST # "" THEN WriteHistory(hist) ELSE TRUE
=============================================================================
