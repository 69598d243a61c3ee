---------------------------- MODULE CacheMachine ----------------------------
(***************************************************************************)
(* The cache of a constant for any number of threads, any requests, any    *)
(* number of them, and any division of precisions into levels.  ConstCache *)
(* refines it (checked by TLC); CacheProof proves it right (tlapm).        *)
(*                                                                         *)
(* cache is a function from levels 0 .. n-1 to the precision of the entry. *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Threads,
          Requests,            \* precisions that may be asked for
          Level(_), Need(_)    \* level of a precision, precision of the entry of a level
ASSUME ReqType == Requests \subseteq Nat
ASSUME LevelType == \A k \in Requests : Level(k) \in Nat
ASSUME NeedType == \A l \in Nat : Need(l) \in Nat
\* the entry of a level is good enough for all the requests of the level
ASSUME NeedEnough == \A k \in Requests : Need(Level(k)) >= k
VARIABLES n, cache,            \* number of entries, entries
          pc, req,             \* thread -> what it does, precision it asks for
          sn, snap,            \* thread -> cache seen at the miss
          ans                  \* thread -> last answer [k, prec]
vars == <<n, cache, pc, req, sn, snap, ans>>
Caches(m) == [0..(m - 1) -> Nat]
Init == /\ n = 0 /\ cache \in Caches(0)
        /\ pc = [t \in Threads |-> "idle"] /\ req = [t \in Threads |-> 0]
        /\ sn = [t \in Threads |-> 0] /\ snap = [t \in Threads |-> cache]
        /\ ans = [t \in Threads |-> [k |-> 0, prec |-> 0]]
Hit(t, k) == /\ pc[t] = "idle" /\ Level(k) < n
             /\ ans' = [ans EXCEPT ![t] = [k |-> k, prec |-> cache[Level(k)]]]
             /\ UNCHANGED <<n, cache, pc, req, sn, snap>>
Miss(t, k) == /\ pc[t] = "idle" /\ ~(Level(k) < n)
              /\ pc' = [pc EXCEPT ![t] = "computing"] /\ req' = [req EXCEPT ![t] = k]
              /\ sn' = [sn EXCEPT ![t] = n] /\ snap' = [snap EXCEPT ![t] = cache]
              /\ UNCHANGED <<n, cache, ans>>
Fill(t) == [l \in 0..Level(req[t]) |-> IF l < sn[t] THEN snap[t][l] ELSE Need(l)]
Finish(t) == /\ pc[t] = "computing"
             /\ IF Level(req[t]) + 1 > n
                THEN n' = Level(req[t]) + 1 /\ cache' = Fill(t)
                ELSE UNCHANGED <<n, cache>>
             /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ ans' = [ans EXCEPT ![t] = [k |-> req[t], prec |-> Need(Level(req[t]))]]
             /\ req' = [req EXCEPT ![t] = 0]
             /\ UNCHANGED <<sn, snap>>
Next == \E t \in Threads : Finish(t) \/ \E k \in Requests : Hit(t, k) \/ Miss(t, k)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Good(m, c) == c = [l \in 0..(m - 1) |-> Need(l)]
TypeOK == /\ n \in Nat /\ pc \in [Threads -> {"idle", "computing"}]
          /\ req \in [Threads -> Nat] /\ sn \in [Threads -> Nat]
          /\ snap \in [Threads -> UNION {Caches(m) : m \in Nat}]
          /\ ans \in [Threads -> [k : Nat, prec : Nat]]
\* entries have the precision of their level, in the cache and in every snapshot; a snapshot taken at a miss is short of the level
Inv == /\ TypeOK
       /\ Good(n, cache)
       /\ \A t \in Threads : Good(sn[t], snap[t])
       /\ \A t \in Threads : pc[t] = "computing" => req[t] \in Requests /\ sn[t] <= Level(req[t])
       /\ \A t \in Threads : ans[t].prec >= ans[t].k
PrecisionOk == \A t \in Threads : ans[t].prec >= ans[t].k
\* the cache only ever grows, and keeps what it has
Growing == n' >= n /\ \A l \in 0..(n - 1) : cache'[l] = cache[l]
=============================================================================
