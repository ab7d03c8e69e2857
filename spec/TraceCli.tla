------------------------------ MODULE TraceCli -------------------------------
(* Checks recorded runs of the command.                                      *)
EXTENDS Cli, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES trCase, trPos, trBad
Init == trCase \in 1..Len(Cases) /\ trPos = 1 /\ trBad = <<>>

OpResult(o) ==
  LET want == Printed(o.name, o.dump, o.asIs, o.asMd, o.libIs, o.libMd)
  IN (IF o.res = 0 THEN {} ELSE {"status"})
     \cup (IF o.res # 0 \/ o.out = want THEN {} ELSE {"printed"})
     \cup (IF o.same THEN {} ELSE {"source"})
Consume == /\ trBad = <<>>
           /\ trPos <= Len(Cases[trCase].ops)
           /\ LET o == Cases[trCase].ops[trPos]
                  r == OpResult(o)
              IN IF r = {} THEN trBad' = <<>>
                 ELSE /\ trBad' = <<trPos>>
                      /\ PrintT(<<"REJECT", Cases[trCase].id, trPos, r>>)
                      /\ PrintT(<<"EXPECT", Cases[trCase].id,
                                  Printed(o.name, o.dump, o.asIs, o.asMd, o.libIs, o.libMd)>>)
           /\ trPos' = trPos + 1
           /\ trCase' = trCase
Next == Consume
=============================================================================
