----------------------------- MODULE JsonShape ------------------------------
(* Which kind of JSON value a deserialized value was (java/JsonShape.java).  *)
EXTENDS Integers, Sequences
IsObj(v) == \E f \in STRING : f \in DOMAIN v      \* a record
IsArr(v) == \E n \in Nat : DOMAIN v = 1..n        \* a sequence
=============================================================================
