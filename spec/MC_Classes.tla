----------------------------- MODULE MC_Classes ------------------------------
(* All histories of classes and renderers up to a length, on top of a few     *)
(* classes that are there already.                                          *)
EXTENDS Classes, IOUtils, Json

MaxLen == atoi(IOEnv.DEPTH)
Ops == << [op |-> "define", c |-> "D", bases |-> <<"B", "C">>, s |-> None],
          [op |-> "define", c |-> "D", bases |-> <<"C", "B">>, s |-> [k3 |-> 105]],
          [op |-> "define", c |-> "E", bases |-> <<"A", "B">>, s |-> None],      \* not possible
          [op |-> "define", c |-> "E", bases |-> <<"C", "Em">>, s |-> [k1 |-> 107, k3 |-> 109]],
          [op |-> "cset", c |-> "A", k |-> "k1", v |-> 7],
          [op |-> "cset", c |-> "C", k |-> "k2", v |-> 105],
          [op |-> "cdel", c |-> "B", k |-> "k2"],
          [op |-> "creplace", c |-> "B", s |-> [k1 |-> 9]],
          [op |-> "make", i |-> 1, c |-> "B", s |-> None],
          [op |-> "make", i |-> 2, c |-> "D", s |-> [k2 |-> 105]],
          [op |-> "make", i |-> 3, c |-> "E", s |-> [template |-> 4]],
          [op |-> "iset", i |-> 1, k |-> "k2", v |-> 2],
          [op |-> "iset", i |-> 2, k |-> "k1", v |-> 1],
          [op |-> "idel", i |-> 2, k |-> "k2"] >>
Pre == << [op |-> "define", c |-> "A", bases |-> <<"Renderer">>, s |-> [k1 |-> 1, k2 |-> 1]],
          [op |-> "define", c |-> "B", bases |-> <<"A">>, s |-> [k2 |-> 2]],
          [op |-> "define", c |-> "C", bases |-> <<"A">>, s |-> [k2 |-> 3, k3 |-> 108]] >>
ASSUME PrintT(<<"ALPHABET", ToJson([alpha |-> Ops, cfgs |-> <<1>>, pre |-> Pre])>>)

VARIABLES clState, clHist, clOk
Init == /\ clState = FoldLeft(LAMBDA s, o : ClOp(s, o)[1], Cl0, Pre)
        /\ clHist = <<>> /\ clOk = TRUE
Possible(o) == CASE o.op = "make" -> o.c \in DOMAIN clState.cls
                 [] o.op = "cdel" -> o.k \in DOMAIN clState.cls[o.c].own
                 [] o.op = "iset" -> o.i \in DOMAIN clState.inst
                 [] o.op = "idel" -> o.i \in DOMAIN clState.inst /\ o.k \in DOMAIN clState.inst[o.i]
                 [] OTHER -> TRUE
Next == /\ Len(clHist) < MaxLen
        /\ \E i \in 1..Len(Ops) :
             /\ Possible(Ops[i])
             /\ LET r == ClOp(clState, Ops[i])
                IN /\ clState' = r[1]
                   /\ clHist' = Append(clHist, i)
                   /\ clOk' = ClFrame(clState, r[1], Ops[i])
Inv == clOk /\ MoreDerivedWins(clState) /\ MroGood(clState)
ChunkInv == TRUE
Emit == Len(clHist) = MaxLen => PrintT(<<"CASE", 1, clHist>>)
=============================================================================
