------------------------------ MODULE TraceCls -------------------------------
(* Checks recorded histories of classes and renderers.  After each operation *)
(* the settings of all classes and of all renderers are read.               *)
EXTENDS Classes, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES trCase, trPos, trState, trBad
Init == trCase \in 1..Len(Cases) /\ trPos = 1 /\ trState = Cl0 /\ trBad = <<>>

Empty2(f) == IF DOMAIN f = {} THEN <<>> ELSE f
\* o.classes: [c, own], o.insts: [i, s], o.fresh: [c, s] (renderers made just
\* to see what they would have)
OpResult(s, o) ==
  LET r == ClOp(s, o)
      t == r[1]
      bad1 == IF \A k \in DOMAIN o.classes : o.classes[k].own = t.cls[o.classes[k].c].own THEN {} ELSE {"class settings"}
      bad2 == IF \A k \in DOMAIN o.insts : o.insts[k].s = t.inst[o.insts[k].i] THEN {} ELSE {"renderer settings"}
      bad3 == IF \A k \in DOMAIN o.fresh : o.fresh[k].s = Inherited(t.cls, o.fresh[k].c) THEN {} ELSE {"inherited settings"}
  IN <<t, IF o.res # r[2] THEN {"result"} ELSE bad1 \cup bad2 \cup bad3>>
Consume == /\ trBad = <<>>
           /\ trPos <= Len(Cases[trCase].ops)
           /\ LET r == OpResult(trState, Cases[trCase].ops[trPos])
              IN /\ trState' = r[1]
                 /\ IF r[2] = {} THEN trBad' = <<>>
                    ELSE /\ trBad' = <<trPos>>
                         /\ PrintT(<<"REJECT", Cases[trCase].id, trPos, r[2]>>)
           /\ trPos' = trPos + 1
           /\ trCase' = trCase
Next == Consume
=============================================================================
