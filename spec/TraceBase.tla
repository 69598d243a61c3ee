----------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common part of the trace specifications.                                *)
(*                                                                         *)
(* The harness executes commands against the real crate and records one    *)
(* event per command: the operation, its arguments, which of them came     *)
(* from registers, and what happened (out.k is ok, none, err, panic, hang  *)
(* or abort; out.v the value).  The state of the specification is the      *)
(* register file: the values computed so far in the current session.  A    *)
(* trace is a behaviour of the specification iff every event is a step     *)
(* that the specification of its operation allows (Verdict = "ok") from    *)
(* the current state.  Steps that are not allowed are reported and skipped *)
(* so that one run judges the whole trace.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,      \* number of events consumed
          sess,   \* current session
          regs    \* register name -> value
tvars == <<i, sess, regs>>
NoRegs == [x \in {} |-> 0]
TInit == i = 0 /\ sess = "" /\ regs = NoRegs

Has(e, f) == f \in DOMAIN e
\* registers visible to the event: a new session starts with none
RegsAt(e) == IF e.s = sess THEN regs ELSE NoRegs
\* arguments taken from registers are what the specification has there
ArgsAgree(e) == \A n \in 1..Len(e.r) : e.r[n] = "" \/ (e.r[n] \in DOMAIN RegsAt(e) /\ RegsAt(e)[e.r[n]] = e.a[n])
Selected(e) == IF Has(e, "sel") THEN e.out.v[e.sel] ELSE e.out.v
Stored(e) == LET R == RegsAt(e) IN
  IF ~Has(e, "d") THEN R
  ELSE IF e.out.k = "ok" THEN [x \in DOMAIN R \cup {e.d} |-> IF x = e.d THEN Selected(e) ELSE R[x]]
  ELSE [x \in DOMAIN R \ {e.d} |-> R[x]]

Report(v) == IF v = "ok" THEN TRUE ELSE PrintT("REJECT " \o ToString(i + 1) \o " " \o v)
\* one step of the trace, v: verdict of the operation's specification
TStep(Verdict(_)) ==
  /\ i < Len(Trace)
  /\ LET e == Trace[i + 1]
         v == IF ~ArgsAgree(e) THEN "register contents differ" ELSE Verdict(e)
     IN  /\ Report(v)
         /\ sess' = e.s
         /\ regs' = Stored(e)
         /\ i' = i + 1
         /\ (IF i' = Len(Trace) THEN PrintT("CONSUMED " \o ToString(i')) ELSE TRUE)

\* ---- verdict building blocks
\* forms that report failure by returning nothing / through a Result
CheckedForms == {"c", "cm", "cr", "ci", "cmm", "cmr", "crm", "crr", "ck", "nz"}
CheckedAssign == {"cam", "car"}
\* the operation had to refuse
MustRefuse(e) ==
  IF e.form \in CheckedForms THEN (IF e.out.k = "none" THEN "ok" ELSE "should have reported failure, got " \o e.out.k)
  ELSE IF e.form \in CheckedAssign
       THEN (IF e.out.k # "err" THEN "should have reported failure, got " \o e.out.k
             ELSE IF e.out.v = e.a[1] THEN "ok" ELSE "failed operation changed its operand")
  ELSE IF e.out.k = "panic" THEN "ok" ELSE "should have panicked, got " \o e.out.k
\* the operation had to succeed with a value satisfying P
MustBe(e, P(_), why) ==
  IF e.out.k # "ok" THEN "failed on valid input: " \o e.out.k
  ELSE IF P(e.out.v) THEN "ok" ELSE why
MustEqual(e, v) == IF e.out.k # "ok" THEN "failed on valid input: " \o e.out.k
                   ELSE IF e.out.v = v THEN "ok" ELSE "wrong result, expected " \o ToString(v)
\* first verdict that is not "ok"
AllOf(vs) == LET bad == {n \in 1..Len(vs) : vs[n] # "ok"} IN
             IF bad = {} THEN "ok" ELSE vs[CHOOSE n \in bad : \A m \in bad : n <= m]
Need(c, why) == IF c THEN "ok" ELSE why
=============================================================================
