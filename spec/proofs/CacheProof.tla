----------------------------- MODULE CacheProof -----------------------------
(* Machine-checked proof (tlapm) that CacheMachine is right.               *)
EXTENDS CacheMachine, TLAPS
LEMMA GoodIsCache == \A m \in Nat : [l \in 0..(m - 1) |-> Need(l)] \in Caches(m)
BY NeedType DEF Caches

LEMMA InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1>0. 0..(0 - 1) = {} OBVIOUS
<1>1. cache = [l \in 0..(0 - 1) |-> Need(l)] BY <1>0 DEF Init, Caches
<1>2. cache \in UNION {Caches(m) : m \in Nat} BY DEF Init
<1> QED BY <1>1, <1>2 DEF Init, Inv, TypeOK, Good

LEMMA StepInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1> USE DEF Inv, TypeOK, Good
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars
<1>2. ASSUME NEW t \in Threads, NEW k \in Requests, Hit(t, k) PROVE Inv'
  <2>1. k \in Nat /\ Level(k) \in Nat /\ Level(k) \in 0..(n - 1) BY <1>2, LevelType, ReqType DEF Hit
  <2>2. cache[Level(k)] = Need(Level(k)) BY <2>1
  <2>3. Need(Level(k)) \in Nat /\ Need(Level(k)) >= k BY <2>1, NeedType, NeedEnough
  <2> QED BY <1>2, <2>1, <2>2, <2>3 DEF Hit
<1>3. ASSUME NEW t \in Threads, NEW k \in Requests, Miss(t, k) PROVE Inv'
  <2>1. k \in Nat /\ Level(k) \in Nat /\ n <= Level(k) BY <1>3, LevelType, ReqType DEF Miss
  <2>2. cache \in UNION {Caches(m) : m \in Nat} BY GoodIsCache
  <2> QED BY <1>3, <2>1, <2>2 DEF Miss
<1>4. ASSUME NEW t \in Threads, Finish(t) PROVE Inv'
  <2>1. req[t] \in Requests /\ Level(req[t]) \in Nat /\ Need(Level(req[t])) \in Nat /\ Need(Level(req[t])) >= req[t]
    BY <1>4, LevelType, NeedType, NeedEnough DEF Finish
  <2>2. \A l \in 0..Level(req[t]) : l < sn[t] => snap[t][l] = Need(l)
    <3> SUFFICES ASSUME NEW l \in 0..Level(req[t]), l < sn[t] PROVE snap[t][l] = Need(l) OBVIOUS
    <3>1. l \in 0..(sn[t] - 1) BY <2>1
    <3> QED BY <3>1
  <2>3. Fill(t) = [l \in 0..Level(req[t]) |-> Need(l)] BY <2>2 DEF Fill
  <2>4. 0..((Level(req[t]) + 1) - 1) = 0..Level(req[t]) BY <2>1
  <2>5. Good(n', cache') /\ n' \in Nat
    <3>1. CASE Level(req[t]) + 1 > n BY <3>1, <1>4, <2>1, <2>3, <2>4 DEF Finish
    <3>2. CASE ~(Level(req[t]) + 1 > n) BY <3>2, <1>4 DEF Finish
    <3> QED BY <3>1, <3>2
  <2> QED BY <1>4, <2>1, <2>5 DEF Finish
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Next

LEMMA StepGrowing == Inv /\ [Next]_vars => Growing
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Growing OBVIOUS
<1>1. Inv' BY StepInv
<1>2. n' >= n
  <2>1. CASE UNCHANGED vars BY <2>1 DEF vars, Inv, TypeOK
  <2>2. ASSUME NEW t \in Threads, NEW k \in Requests, Hit(t, k) \/ Miss(t, k) PROVE n' >= n BY <2>2 DEF Hit, Miss, Inv, TypeOK
  <2>3. ASSUME NEW t \in Threads, Finish(t) PROVE n' >= n BY <2>3, LevelType DEF Finish, Inv, TypeOK
  <2> QED BY <2>1, <2>2, <2>3 DEF Next
<1>3. \A l \in 0..(n - 1) : cache'[l] = cache[l]
  <2> SUFFICES ASSUME NEW l \in 0..(n - 1) PROVE cache'[l] = cache[l] OBVIOUS
  <2>1. n \in Nat /\ n' \in Nat /\ l \in 0..(n' - 1) BY <1>1, <1>2 DEF Inv, TypeOK
  <2>2. cache[l] = Need(l) BY DEF Inv, Good
  <2>3. cache'[l] = Need(l) BY <1>1, <2>1 DEF Inv, Good
  <2> QED BY <2>2, <2>3
<1> QED BY <1>2, <1>3 DEF Growing

THEOREM Safety == Spec => [](PrecisionOk /\ Good(n, cache)) /\ [][Growing]_vars
<1>1. Inv => PrecisionOk /\ Good(n, cache) BY DEF Inv, PrecisionOk
<1>2. Inv /\ [Next]_vars => [Growing]_vars BY StepGrowing
<1> QED BY InitInv, StepInv, <1>1, <1>2, PTL DEF Spec
=============================================================================
