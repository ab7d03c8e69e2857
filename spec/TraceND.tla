------------------------------- MODULE TraceND -------------------------------
(* Checks recorded histories of settings.  After each operation all keys are *)
(* read in all ways.                                                        *)
EXTENDS NameDict, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES trCase, trPos, trState, trBad
Init == trCase \in 1..Len(Cases) /\ trPos = 1 /\ trState = Nd0 /\ trBad = <<>>

\* o.reads: a sequence of [k, item, attr, has, len]
\* The kinds first: the values of different kinds are not comparable
SameRes(a, b) == a.k = b.k /\ a.v = b.v
ReadOk(s, r) == (IF SameRes(r.item, GetItem(s, r.k)) THEN {} ELSE {"item"})
                \cup (IF SameRes(r.attr, GetAttr(s, r.k)) THEN {} ELSE {"attribute"})
                \cup (IF r.has = HasKey(s.items, r.k) THEN {} ELSE {"contains"})
OpResult(s, o) ==
  LET r == NdOp(s, o)
      bad == UNION {ReadOk(r[1], o.reads[k]) : k \in DOMAIN o.reads}
  IN <<r[1], bad \cup (IF SameRes(o.res, r[2]) THEN {} ELSE {"result"})
                 \cup (IF o.len = Cardinality(DOMAIN r[1].items) THEN {} ELSE {"length"})>>
Consume == /\ trBad = <<>>
           /\ trPos <= Len(Cases[trCase].ops)
           /\ LET r == OpResult(trState, Cases[trCase].ops[trPos])
              IN /\ trState' = r[1]
                 /\ IF r[2] = {} THEN trBad' = <<>>
                    ELSE /\ trBad' = <<trPos>>
                         /\ PrintT(<<"REJECT", Cases[trCase].id, trPos, r[2]>>)
           /\ trPos' = trPos + 1
           /\ trCase' = trCase
Next == Consume
=============================================================================
