---------------------------- MODULE MC_NameDict -----------------------------
(* All histories of settings up to a length. *)
EXTENDS NameDict, IOUtils, Json

MaxLen == atoi(IOEnv.DEPTH)
Keys == {"a", "b", "keys", "get"}
Ops == << [op |-> "setitem", k |-> "a", v |-> 1], [op |-> "setattr", k |-> "a", v |-> 2],
          [op |-> "delitem", k |-> "a"], [op |-> "delattr", k |-> "a"],
          [op |-> "setattr", k |-> "b", v |-> 3], [op |-> "delattr", k |-> "b"],
          [op |-> "setitem", k |-> "keys", v |-> 4], [op |-> "setattr", k |-> "keys", v |-> 5],
          [op |-> "delitem", k |-> "keys"], [op |-> "delattr", k |-> "keys"],
          [op |-> "update", m |-> [a |-> 6, get |-> 7]], [op |-> "pop", k |-> "a"],
          [op |-> "setdefault", k |-> "b", v |-> 8], [op |-> "clear"], [op |-> "remake"], [op |-> "clone"], [op |-> "ior", m |-> [b |-> -1]],
          [op |-> "delattr", k |-> "get"] >>
ASSUME PrintT(<<"ALPHABET", ToJson([alpha |-> Ops, cfgs |-> <<1>>, pre |-> <<>>])>>)

VARIABLES ndState, ndHist, ndOk
vars == <<ndState, ndHist, ndOk>>
Init == ndState = Nd0 /\ ndHist = <<>> /\ ndOk = TRUE
\* What an operation may change
Frame(s, t, o) ==
  LET touched == IF o.op \in {"update", "ior"} THEN DOMAIN o.m ELSE IF o.op \in {"clear", "remake"} THEN Keys ELSE IF o.op = "clone" THEN {} ELSE {o.k}
  IN \A k \in Keys \ touched : GetItem(s, k) = GetItem(t, k) /\ GetAttr(s, k) = GetAttr(t, k)
Next == /\ Len(ndHist) < MaxLen
        /\ \E i \in 1..Len(Ops) :
             LET r == NdOp(ndState, Ops[i])
             IN /\ ndState' = r[1]
                /\ ndHist' = Append(ndHist, i)
                /\ ndOk' = /\ Frame(ndState, r[1], Ops[i])
                           /\ r[2].k = "raise" => r[1] = ndState
                           /\ Ops[i].op \in {"setitem", "setdefault"} => HasKey(r[1].items, Ops[i].k)
                           /\ Ops[i].op = "setattr" /\ Ops[i].k \notin Methods
                                => GetItem(r[1], Ops[i].k) = Val(Ops[i].v)
                           /\ Ops[i].op = "setattr" /\ Ops[i].k \in Methods /\ ~HasKey(ndState.items, Ops[i].k)
                                => ~HasKey(r[1].items, Ops[i].k)
Inv == NdOk(ndState, Keys) /\ ndOk
ChunkInv == TRUE
Emit == Len(ndHist) = MaxLen => PrintT(<<"CASE", 1, ndHist>>)
=============================================================================
