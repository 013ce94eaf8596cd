------------------------------ MODULE Concurrency ------------------------------
(***************************************************************************)
(* What goroutines that use the library at the same time share, though     *)
(* each has decimals of its own:                                           *)
(*  - the table of powers of ten (internal/arith/pow.go): a slice that is  *)
(*    published with an atomic pointer, and grown under a lock by append,  *)
(*    which may write into the spare cells of the array it shares with the *)
(*    slices published before;                                             *)
(*  - constants that are built by the first of their users (const.go);     *)
(*  - a pool of scratch decimals (util.go).                                *)
(* A power 10^n is represented by n.                                       *)
(*                                                                         *)
(* All interleavings of the atomic steps of all programs of up to Ops      *)
(* operations per goroutine are visited.  BUG # "none" breaks the design   *)
(* in one place; a property must then be violated (see plan.py).           *)
(*                                                                         *)
(* Every program is written as a set of histories that the driver executes *)
(* at the same time in a new process, under the race detector.             *)
(***************************************************************************)
EXTENDS Histories, SequencesExt
Threads == 1..atoi(IOEnv.THREADS)
Ops     == atoi(IOEnv.OPS)
BUG     == IOEnv.BUG
Every   == atoi(IOEnv.EVERY)
Len0    == 2          \* of the table, at first (20)
Limit   == 5          \* its largest length (100000)
None    == -1
MaxObj  == 2 * Cardinality(Threads)
Consts  == {1, 2}
KSeq == <<<<"pow", 1>>, <<"pow", 2>>, <<"pow", 3>>, <<"pow", 4>>, <<"pow", 6>>, <<"const", 1>>, <<"const", 2>>, <<"scratch", 0>>>>

VARIABLES prog,     \* the operations of each goroutine
          pub,      \* the published slice: array, length
          arr,      \* the arrays: their cells
          owner,    \* of the lock, or 0
          once,     \* state and value of each constant
          pool,     \* scratch decimals that nobody uses
          obj,      \* what the scratch decimals hold
          th,       \* goroutines: program counter, index of the operation, locals
          wrote     \* cell written by the last step, or <<>>
vars == <<prog, pub, arr, owner, once, pool, obj, th, wrote>>
View == <<prog, pub, arr, owner, once, pool, obj, th>>

\* Programs: the goroutines are interchangeable.
Rank(p) == FoldLeft(LAMBDA r, i : 100 * r + i, 0, p)
Programs == {p \in [Threads -> [1..Ops -> DOMAIN KSeq]] : \A t \in Threads : t > 1 => Rank(p[t-1]) <= Rank(p[t])}
Idle == [pc |-> "next", op |-> 0, a |-> 0, len |-> 0, i |-> 0, nl |-> 0, o |-> 0, o2 |-> 0, res |-> None]
Init ==
  /\ \E p \in Programs : prog = [t \in Threads |-> [k \in 1..Ops |-> KSeq[p[t][k]]]]
  /\ pub = [a |-> 1, len |-> Len0] /\ arr = <<[i \in 0..Len0-1 |-> i]>>
  /\ owner = 0 /\ once = [k \in Consts |-> [st |-> "new", v |-> None]]
  /\ pool = {} /\ obj = <<>> /\ th = [t \in Threads |-> Idle] /\ wrote = <<>>

Cur(t) == prog[t][th[t].op]
Arg(t) == Cur(t)[2]
Goto(t, pc) == th' = [th EXCEPT ![t].pc = pc]
Quiet_ == wrote' = <<>>
At(t, pc) == th[t].pc = pc
Cell(h, i) == IF i \in DOMAIN arr[h.a] THEN arr[h.a][i] ELSE None

Start(t) ==
  /\ At(t, "next") /\ th[t].op < Ops /\ Quiet_
  /\ th' = [th EXCEPT ![t] = [Idle EXCEPT !.op = th[t].op + 1,
              !.pc = CASE prog[t][th[t].op + 1][1] = "pow" -> "load" [] prog[t][th[t].op + 1][1] = "const" -> "do" [] OTHER -> "get"]]
  /\ UNCHANGED <<prog, pub, arr, owner, once, pool, obj>>

-----------------------------------------------------------------------------
(* BigPow10, growBigTen *)
Load_(t) ==
  /\ At(t, "load") /\ Quiet_
  /\ th' = [th EXCEPT ![t].a = pub.a, ![t].len = pub.len,
              ![t].pc = IF Arg(t) < pub.len THEN "read" ELSE IF Arg(t) >= Limit THEN "part"
                        ELSE IF BUG = "nolock" THEN "again" ELSE "lock"]
  /\ UNCHANGED <<prog, pub, arr, owner, once, pool, obj>>
Part(t) ==
  /\ At(t, "part") /\ Quiet_
  /\ th' = [th EXCEPT ![t].res = Cell(th[t], th[t].len - 1) + (Arg(t) - (th[t].len - 1)), ![t].pc = "end"]
  /\ UNCHANGED <<prog, pub, arr, owner, once, pool, obj>>
Lock(t) ==
  /\ At(t, "lock") /\ owner = 0 /\ owner' = t /\ Goto(t, "again") /\ Quiet_
  /\ UNCHANGED <<prog, pub, arr, once, pool, obj>>
RECURSIVE Grown(_, _)
Grown(l, n) == IF l > n THEN l ELSE Grown(2 * l, n)
Again(t) ==
  LET h == IF BUG = "norecheck" THEN [a |-> th[t].a, len |-> th[t].len] ELSE pub
      nl == Min2(Grown(2 * h.len, Arg(t)), Limit)
  IN /\ At(t, "again") /\ Quiet_
     /\ IF Arg(t) < h.len
        THEN th' = [th EXCEPT ![t].a = h.a, ![t].len = h.len, ![t].pc = "unlock"] /\ UNCHANGED pub
        ELSE /\ th' = [th EXCEPT ![t].a = h.a, ![t].len = h.len, ![t].i = h.len, ![t].nl = nl, ![t].pc = "fill"]
             /\ pub' = IF BUG = "publishfirst" THEN [a |-> h.a, len |-> nl] ELSE pub
     /\ UNCHANGED <<prog, arr, owner, once, pool, obj>>
\* append(tab, 10*tab[i-1]); the new array of a full one has at least twice its cells
Fill(t) ==
  LET a == th[t].a  i == th[t].i  v == Cell(th[t], i - 1) + 1
  IN /\ At(t, "fill")
     /\ IF i >= th[t].nl THEN Goto(t, "publish") /\ Quiet_ /\ UNCHANGED arr
        ELSE IF i \in DOMAIN arr[a]
        THEN /\ arr' = [arr EXCEPT ![a][i] = v] /\ wrote' = <<a, i>>
             /\ th' = [th EXCEPT ![t].i = i + 1]
        ELSE \E spare \in {0, 1} :
               LET cap == 2 * Cardinality(DOMAIN arr[a]) + spare
               IN /\ arr' = Append(arr, [j \in 0..cap-1 |-> IF j < i THEN arr[a][j] ELSE IF j = i THEN v ELSE None])
                  /\ wrote' = <<>>          \* nobody else knows the new array
                  /\ th' = [th EXCEPT ![t].i = i + 1, ![t].a = Len(arr) + 1]
     /\ UNCHANGED <<prog, pub, owner, once, pool, obj>>
Publish(t) ==
  /\ At(t, "publish") /\ pub' = [a |-> th[t].a, len |-> th[t].nl] /\ Quiet_
  /\ th' = [th EXCEPT ![t].len = th[t].nl, ![t].pc = "unlock"]
  /\ UNCHANGED <<prog, arr, owner, once, pool, obj>>
Unlock(t) ==
  /\ At(t, "unlock") /\ owner' = (IF owner = t THEN 0 ELSE owner) /\ Goto(t, "read") /\ Quiet_
  /\ UNCHANGED <<prog, pub, arr, once, pool, obj>>
Read(t) ==
  /\ At(t, "read") /\ th' = [th EXCEPT ![t].res = Cell(th[t], Arg(t)), ![t].pc = "end"] /\ Quiet_
  /\ UNCHANGED <<prog, pub, arr, owner, once, pool, obj>>

-----------------------------------------------------------------------------
(* lazyDecimal.get *)
Do(t) ==
  LET k == Arg(t) IN
  /\ At(t, "do") /\ Quiet_
  /\ CASE once[k].st = "new" -> /\ once' = [once EXCEPT ![k].st = IF BUG = "once" THEN "done" ELSE "busy"]
                                /\ Goto(t, "build")
       [] once[k].st = "busy" -> FALSE          \* waits
       [] OTHER -> Goto(t, "use") /\ UNCHANGED once
  /\ UNCHANGED <<prog, pub, arr, owner, pool, obj>>
Build(t) ==
  /\ At(t, "build") /\ once' = [once EXCEPT ![Arg(t)].v = Arg(t)] /\ Goto(t, "built") /\ Quiet_
  /\ UNCHANGED <<prog, pub, arr, owner, pool, obj>>
Built(t) ==
  /\ At(t, "built") /\ once' = [once EXCEPT ![Arg(t)].st = "done"] /\ Goto(t, "use") /\ Quiet_
  /\ UNCHANGED <<prog, pub, arr, owner, pool, obj>>
Use(t) ==
  /\ At(t, "use") /\ th' = [th EXCEPT ![t].res = once[Arg(t)].v, ![t].pc = "end"] /\ Quiet_
  /\ UNCHANGED <<prog, pub, arr, owner, once, pool, obj>>

-----------------------------------------------------------------------------
(* getDec, putDec: two scratch decimals at a time *)
Take(t, field, pc) ==
  \/ \E o \in pool : /\ pool' = pool \ {o} /\ th' = [th EXCEPT ![t][field] = o, ![t].pc = pc] /\ UNCHANGED obj
  \/ /\ Len(obj) < MaxObj /\ obj' = Append(obj, None) /\ UNCHANGED pool
     /\ th' = [th EXCEPT ![t][field] = Len(obj) + 1, ![t].pc = pc]
Get(t)  == At(t, "get") /\ Take(t, "o", "get2") /\ Quiet_ /\ UNCHANGED <<prog, pub, arr, owner, once>>
Get2(t) == At(t, "get2") /\ Take(t, "o2", "set") /\ Quiet_ /\ UNCHANGED <<prog, pub, arr, owner, once>>
Set_(t) ==
  /\ At(t, "set") /\ obj' = [obj EXCEPT ![th[t].o] = 10 * t, ![th[t].o2] = 10 * t + 1] /\ Quiet_
  /\ Goto(t, IF BUG = "useafterput" THEN "put" ELSE "calc")
  /\ UNCHANGED <<prog, pub, arr, owner, once, pool>>
Calc(t) ==
  /\ At(t, "calc") /\ th' = [th EXCEPT ![t].res = obj[th[t].o] + obj[th[t].o2],
                                       ![t].pc = IF BUG = "useafterput" THEN "end" ELSE "put"] /\ Quiet_
  /\ UNCHANGED <<prog, pub, arr, owner, once, pool, obj>>
Put(t) ==
  /\ At(t, "put") /\ pool' = pool \cup {th[t].o} /\ Quiet_ /\ Goto(t, "put2")
  /\ UNCHANGED <<prog, pub, arr, owner, once, obj>>
Put2(t) ==
  /\ At(t, "put2") /\ pool' = pool \cup (IF BUG = "doubleput" THEN {th[t].o, th[t].o2} ELSE {th[t].o2}) /\ Quiet_
  /\ Goto(t, IF BUG = "useafterput" THEN "calc" ELSE "end")
  /\ UNCHANGED <<prog, pub, arr, owner, once, obj>>

-----------------------------------------------------------------------------
Want(t) == CASE Cur(t)[1] = "scratch" -> 20 * t + 1 [] OTHER -> Arg(t)
End(t) ==
  /\ At(t, "end") /\ Quiet_ /\ Goto(t, "next")
  /\ UNCHANGED <<prog, pub, arr, owner, once, pool, obj>>
Step(t) == Start(t) \/ Load_(t) \/ Part(t) \/ Lock(t) \/ Again(t) \/ Fill(t) \/ Publish(t) \/ Unlock(t) \/ Read(t)
           \/ Do(t) \/ Build(t) \/ Built(t) \/ Use(t) \/ Get(t) \/ Get2(t) \/ Set_(t) \/ Calc(t) \/ Put(t) \/ Put2(t) \/ End(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

\* each operation gives what it gives alone
Right == \A t \in Threads : At(t, "end") => th[t].res = Want(t)
\* what was published is complete
Complete == \A i \in 0..pub.len-1 : Cell(pub, i) = i
\* a scratch decimal has one user
Holding(t) == IF th[t].pc \in {"get2"} THEN {th[t].o}
              ELSE IF th[t].pc \in {"set", "calc", "put"} THEN {th[t].o, th[t].o2}
              ELSE IF th[t].pc = "put2" THEN {th[t].o2} ELSE {}
OneUser == \A t \in Threads : /\ Holding(t) \cap pool = {}
                              /\ th[t].pc \in {"set", "calc", "put"} => th[t].o # th[t].o2
                              /\ \A u \in Threads \ {t} : Holding(t) \cap Holding(u) = {}
Mutex == \A t \in Threads : th[t].pc \in {"again", "fill", "publish", "unlock"} => owner = t
\* no race: a cell that others may read isn't written, the table only grows
Reads(t) == th[t].pc \in {"read", "part", "end"} /\ Cur(t)[1] = "pow"
NoRace == [][/\ (wrote' # <<>> => ~(pub.a = wrote'[1] /\ wrote'[2] < pub.len)
                                /\ \A t \in Threads : Reads(t) /\ th[t].a = wrote'[1] => wrote'[2] >= th[t].len)
             /\ pub'.len >= pub.len
             /\ \A k \in Consts : once[k].st = "done" => once'[k] = once[k]]_vars
Done == \A t \in Threads : At(t, "next") /\ th[t].op = Ops
Terminates == <>Done
Stuck == ~ENABLED Next => Done

-----------------------------------------------------------------------------
(* The programs, for the driver *)
Pos(k) == CHOOSE j \in DOMAIN KSeq : KSeq[j] = k
Hash3(p) == FoldLeft(LAMBDA s, t : FoldLeft(LAMBDA r, k : (r * 31 + Pos(k)) % 65521, s, p[t]), Seed * 7, [t \in Threads |-> t])
Pick_(S, h) == SetToSortSeq(S, LAMBDA v, w : v < w)[(h % Cardinality(S)) + 1]
RealPow(n, h) == CASE n = 1 -> Pick_({7, 19}, h) [] n = 2 -> Pick_({20, 21}, h) [] n = 3 -> Pick_({25, 39}, h)
                   [] n = 4 -> Pick_({40, 79, 170, 641}, h) [] OTHER -> IF h % 16 = 0 THEN 100001 ELSE Pick_({80, 330}, h)
U == <<Unlimited, 0, 0, 0, 0>>
P20 == <<20, 0, 0, 0, 0>>
EvsOf(k, h) ==
  CASE k[1] = "pow" -> <<Loads(5, Fin(0, BI(7), -RealPow(k[2], h)), U, 0), Loads(4, OneV, U, 0),
                         Ev("Add", "c", 4, 1, 5, 0, U, <<>>, <<>>)>>
    [] k = <<"const", 1>> -> <<Loads(4, OneV, P20, 0), Ev("Pi", "c", 4, 0, 0, 0, P20, <<>>, <<>>)>>
    [] k = <<"const", 2>> -> <<Loads(4, OneV, P20, 0), Ev("E", "c", 4, 0, 0, 0, P20, <<>>, <<>>)>>
    [] OTHER -> <<Loads(4, OneV, P20, 0), IF h % 2 = 0 THEN Ev("Hypot", "c", 4, 2, 3, 0, P20, <<>>, <<>>)
                                          ELSE Ev("Atan", "c", 4, 2, 0, 0, P20, <<>>, <<>>)>>
Program == [base |-> <<Loads(1, OneV, U, 0), Loads(2, Fin(0, BI(5), -1), P20, 0), Loads(3, Fin(0, BI(12), -1), P20, 0)>>,
            threads |-> [t \in Threads |-> FoldLeft(LAMBDA s, k : s \o EvsOf(k, Hash3(prog) \div 7), <<>>, prog[t])]]
Write == IF HIST # "" /\ (\A t \in Threads : th[t] = Idle) /\ Hash3(prog) % Every = 0 THEN WriteHistory(Program) ELSE TRUE
=============================================================================
