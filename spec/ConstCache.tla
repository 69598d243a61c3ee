----------------------------- MODULE ConstCache -----------------------------
(***************************************************************************)
(* The cache of a constant shared by threads.                              *)
(*                                                                         *)
(* A request for precision k belongs to level Level(k); entry number l of  *)
(* the cache serves all the requests of level l, hence has precision       *)
(* Need(l), the largest precision of that level.  A request reads the      *)
(* cache under the read lock; on a miss it computes the constant at        *)
(* Need(Level(k)) outside of any lock, fills up its snapshot of the cache  *)
(* and stores it under the write lock unless the cache has grown further   *)
(* in the meantime.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads,     \* 1..n
          Choices,     \* precisions that may be requested
          PerThread,   \* requests per thread
          Variant      \* "right", or a defect: "lost" (stores without looking), "stale" (keeps levels unfilled)
VARIABLES todo,        \* thread -> precisions still to be requested
          pc,          \* thread -> "idle" | "computing"
          snap,        \* thread -> cache seen at the miss
          cache,       \* sequence of the precisions of the entries
          got,         \* thread -> results: sequence of [k, prec]
          sched        \* schedule so far
vars == <<todo, pc, snap, cache, got, sched>>
RECURSIVE FLog2(_)
FLog2(n) == IF n <= 1 THEN 0 ELSE 1 + FLog2(n \div 2)
\* floor(3 log2(k + 1)), from precision 32 on
Base == FLog2(33 * 33 * 33)
Level(k) == FLog2((IF k < 32 THEN 33 ELSE k + 1) * (IF k < 32 THEN 33 ELSE k + 1) * (IF k < 32 THEN 33 ELSE k + 1)) - Base
TopK == 1200
Need(l) == CHOOSE k \in 0..TopK : Level(k) <= l /\ Level(k + 1) > l
Levels == 0..(Level(TopK) - 1)
NeedTab == [l \in Levels |-> Need(l)]
LevelTab == [k \in Choices |-> Level(k)]

Init == /\ todo \in [Threads -> [1..PerThread -> Choices]]
        /\ pc = [t \in Threads |-> "idle"] /\ snap = [t \in Threads |-> <<>>]
        /\ cache = <<>> /\ got = [t \in Threads |-> <<>>] /\ sched = <<>>
Return(t, prec) == /\ got' = [got EXCEPT ![t] = Append(@, [k |-> Head(todo[t]), prec |-> prec])]
                   /\ todo' = [todo EXCEPT ![t] = Tail(@)]
\* start of a request: hit or miss
Start(t) ==
  /\ pc[t] = "idle" /\ todo[t] # <<>>
  /\ LET l == LevelTab[Head(todo[t])] IN
     IF l < Len(cache)
     THEN Return(t, cache[l + 1]) /\ UNCHANGED <<pc, snap>>
     ELSE /\ pc' = [pc EXCEPT ![t] = "computing"] /\ snap' = [snap EXCEPT ![t] = cache]
          /\ UNCHANGED <<todo, got>>
  /\ sched' = Append(sched, t) /\ UNCHANGED cache
Fill(t, l) ==
  IF Variant = "stale" THEN snap[t] \o <<NeedTab[l]>>
  ELSE snap[t] \o [j \in 1..(l + 1 - Len(snap[t])) |-> NeedTab[Len(snap[t]) + j - 1]]
Finish(t) ==
  /\ pc[t] = "computing"
  /\ LET l == LevelTab[Head(todo[t])]  new == Fill(t, l) IN
     /\ cache' = IF Len(new) > Len(cache) \/ Variant = "lost" THEN new ELSE cache
     /\ Return(t, NeedTab[l])
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ sched' = Append(sched, t) /\ UNCHANGED snap
Next == \E t \in Threads : Start(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars
AllDone == \A t \in Threads : todo[t] = <<>>

\* ---- properties
PrecisionOk == \A t \in Threads : \A n \in 1..Len(got[t]) : got[t][n].prec >= got[t][n].k
EntriesOk == \A l \in 1..Len(cache) : cache[l] = NeedTab[l - 1]
NoDeadlock == AllDone \/ ENABLED Next
Growing == [][Len(cache') >= Len(cache) /\ SubSeq(cache', 1, Len(cache)) = cache]_vars
=============================================================================
