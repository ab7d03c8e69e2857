------------------------------- MODULE Classes -------------------------------
(***************************************************************************)
(* Classes of renderers and the settings of their instances.                *)
(*                                                                          *)
(* State: [cls |-> classes by name: [bases, own], inst |-> instances by       *)
(* number: their settings].                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

None == <<>>   \* no settings
OverS(a, b) == b @@ a

\* Classes of the library that may be derived from.  Values: 100 is the
\* template "{}", 101 is false, 102 the template "_{}_", 103 .. others.
Library == [ Renderer |-> [bases |-> <<>>, own |-> None],
             Inline   |-> [bases |-> <<"Renderer">>, own |-> [template |-> 100, capitalized |-> 101]],
             Em       |-> [bases |-> <<"Inline">>, own |-> [template |-> 102]],
             Block    |-> [bases |-> <<"Renderer">>, own |-> [margin |-> 103, padding |-> 103]],
             Header   |-> [bases |-> <<"Block">>, own |-> [template |-> 100, capitalized |-> 101,
                                                            centered |-> 101, margin |-> 104]] ]
Cl0 == [cls |-> Library, inst |-> <<>>]

\* -- the order of the bases: C3 ---------------------------------------------
Tails(ls) == UNION {{ls[k][j] : j \in 2..Len(ls[k])} : k \in DOMAIN ls}
RECURSIVE Merge(_)
\* <<TRUE, order>>, or <<FALSE, ...>> if there is none
Merge(ls0) ==
  LET ls == SelectSeq(ls0, LAMBDA l : l # <<>>)
      good == SelectSeq([k \in DOMAIN ls |-> k], LAMBDA k : ls[k][1] \notin Tails(ls))
  IN IF ls = <<>> THEN <<TRUE, <<>>>>
     ELSE IF good = <<>> THEN <<FALSE, <<>>>>
     ELSE LET h == ls[good[1]][1]
              rest == Merge([k \in DOMAIN ls |-> IF ls[k][1] = h THEN Tail(ls[k]) ELSE ls[k]])
          IN <<rest[1], <<h>> \o rest[2]>>
RECURSIVE Mro(_, _)
MroOf(cls, bases) ==
  LET ms == [k \in DOMAIN bases |-> Mro(cls, bases[k])]
  IN Merge(ms \o <<bases>>)
Mro(cls, c) == <<c>> \o MroOf(cls, cls[c].bases)[2]

\* The settings that an instance of a class starts with
Inherited(cls, c) ==
  FoldLeft(LAMBDA acc, k : OverS(acc, cls[k].own), None, Reverse(Mro(cls, c)))

PutK(f, k, v) == (k :> v) @@ f
DelK(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

\* <<new state, result>>
ClOp(s, o) ==
  CASE o.op = "define" ->
         LET ok == /\ Cardinality({o.bases[k] : k \in DOMAIN o.bases}) = Len(o.bases)
                   /\ MroOf(s.cls, o.bases)[1]
         IN IF ok THEN <<[s EXCEPT !.cls = PutK(@, o.c, [bases |-> o.bases, own |-> o.s])], "ok">>
            ELSE <<s, "TypeError">>
    \* change or delete a setting of a class
    [] o.op = "cset" -> <<[s EXCEPT !.cls[o.c].own = PutK(@, o.k, o.v)], "ok">>
    [] o.op = "cdel" -> <<[s EXCEPT !.cls[o.c].own = DelK(@, o.k)], "ok">>
    \* replace all settings of a class
    [] o.op = "creplace" -> <<[s EXCEPT !.cls[o.c].own = o.s], "ok">>
    \* a renderer of the class, for a rule with settings
    \* and another one for the next element
    [] o.op = "make" -> LET v == OverS(Inherited(s.cls, o.c), o.s)
                        IN <<[s EXCEPT !.inst = PutK(PutK(@, o.i, v), o.i + 10, v)], "ok">>
    [] o.op = "iset" -> <<[s EXCEPT !.inst[o.i] = PutK(@, o.k, o.v)], "ok">>
    [] o.op = "idel" -> <<[s EXCEPT !.inst[o.i] = DelK(@, o.k)], "ok">>

-----------------------------------------------------------------------------
\* C07
SubclassOf(cls, c, d) == \E k \in DOMAIN Mro(cls, c) : Mro(cls, c)[k] = d
\* What may differ after an operation: instances and the settings that new
\* instances of the classes would have
ClFrame(s, t, o) ==
  /\ o.op \in {"define", "cset", "cdel", "creplace"} => s.inst = t.inst
  /\ o.op \in {"make", "iset", "idel"} =>
       /\ s.cls = t.cls
       /\ \A i \in DOMAIN s.inst \ (IF o.op = "make" THEN {o.i, o.i + 10} ELSE {o.i}) : t.inst[i] = s.inst[i]
  /\ o.op \in {"cset", "cdel", "creplace"} =>
       \A c \in DOMAIN s.cls : ~SubclassOf(s.cls, c, o.c) => Inherited(t.cls, c) = Inherited(s.cls, c)
  /\ o.op = "define" => \A c \in DOMAIN s.cls \ {o.c} : Inherited(t.cls, c) = Inherited(s.cls, c)
\* A class has its own settings, and those of its bases that it does not have
\* itself.
MoreDerivedWins(s) == \A c \in DOMAIN s.cls :
  LET i == Inherited(s.cls, c)
      m == Mro(s.cls, c)
  IN /\ \A k \in DOMAIN s.cls[c].own : i[k] = s.cls[c].own[k]
     /\ DOMAIN i = UNION {DOMAIN s.cls[m[j]].own : j \in DOMAIN m}
     /\ \A k \in DOMAIN i :
          LET j == SelectInSeq(m, LAMBDA d : k \in DOMAIN s.cls[d].own)
          IN i[k] = s.cls[m[j]].own[k]
\* The order of the bases: a class comes before its bases, bases as listed
MroGood(s) == \A c \in DOMAIN s.cls :
  LET m == Mro(s.cls, c)
      at(d) == SelectInSeq(m, LAMBDA x : x = d)
  IN \A j \in DOMAIN m : \A n \in DOMAIN s.cls[m[j]].bases :
       /\ at(s.cls[m[j]].bases[n]) > j
       /\ n > 1 => at(s.cls[m[j]].bases[n-1]) < at(s.cls[m[j]].bases[n])
=============================================================================
