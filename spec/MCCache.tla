------------------------------ MODULE MCCache ------------------------------
(* All schedules of a few requests; complete behaviours are written out.   *)
EXTENDS ConstCache, TLC, Json, CSV, IOUtils
ChoicesDef == {5, 40, 300}
VARIABLE asked
InitM == Init /\ asked = todo
NextM == Next /\ UNCHANGED asked
SpecM == InitM /\ [][NextM]_<<vars, asked>>
\* this machine does what the general one does, which CacheProof proves right
Abs == INSTANCE CacheMachine WITH
  Requests <- Choices, Level <- LAMBDA k : LevelTab[k], Need <- LAMBDA l : NeedTab[l],
  n <- Len(cache), cache <- [l \in 0..(Len(cache) - 1) |-> cache[l + 1]],
  req <- [t \in Threads |-> IF pc[t] = "computing" THEN Head(todo[t]) ELSE 0],
  sn <- [t \in Threads |-> Len(snap[t])], snap <- [t \in Threads |-> [l \in 0..(Len(snap[t]) - 1) |-> snap[t][l + 1]]],
  ans <- [t \in Threads |-> IF got[t] = <<>> THEN [k |-> 0, prec |-> 0] ELSE got[t][Len(got[t])]]
Refines == Abs!Spec
Emit == ~AllDone \/ CSVWrite("%1$s", <<ToJson([r |-> asked, s |-> sched])>>, IOEnv.OUT)
=============================================================================
