------------------------------ MODULE NameDict ------------------------------
(***************************************************************************)
(* Settings: a mapping whose items are attributes as well.                  *)
(*                                                                          *)
(* State: [items |-> mapping of keys to values, attrs |-> what has been      *)
(* assigned to attributes with the name of a method].                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Keys that are the names of methods of mappings
Methods == {"keys", "get", "pop", "update", "items", "copy", "clear", "values", "setdefault", "popitem", "fromkeys"}
Empty == <<>>
Nd0 == [items |-> Empty, attrs |-> Empty]

HasKey(f, k) == k \in DOMAIN f
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

\* Results: a number, or what is raised
Val(v) == [k |-> "value", v |-> v]
Raised(e) == [k |-> "raise", v |-> e]
Done == [k |-> "done", v |-> 0]
TheMethod == [k |-> "method", v |-> 0]

GetItem(s, k) == IF HasKey(s.items, k) THEN Val(s.items[k]) ELSE Raised("KeyError")
\* An attribute with the name of a method is the method, unless assigned
GetAttr(s, k) ==
  IF HasKey(s.attrs, k) THEN Val(s.attrs[k])
  ELSE IF k \in Methods THEN TheMethod
  ELSE IF HasKey(s.items, k) THEN Val(s.items[k])
  ELSE Raised("AttributeError")

\* <<new state, result>>
NdOp(s, o) ==
  CASE o.op = "setitem" -> <<[s EXCEPT !.items = Put(@, o.k, o.v)], Done>>
    [] o.op = "setattr" ->
         IF o.k \in Methods /\ ~HasKey(s.items, o.k)
         THEN <<[s EXCEPT !.attrs = Put(@, o.k, o.v)], Done>>
         ELSE <<[s EXCEPT !.items = Put(@, o.k, o.v)], Done>>
    [] o.op = "delitem" ->
         IF HasKey(s.items, o.k) THEN <<[s EXCEPT !.items = Del(@, o.k)], Done>>
         ELSE <<s, Raised("KeyError")>>
    [] o.op = "delattr" ->
         IF HasKey(s.items, o.k) THEN <<[s EXCEPT !.items = Del(@, o.k)], Done>>
         ELSE IF HasKey(s.attrs, o.k) THEN <<[s EXCEPT !.attrs = Del(@, o.k)], Done>>
         ELSE <<s, Raised("AttributeError")>>
    [] o.op \in {"update", "ior"} -> <<[s EXCEPT !.items = o.m @@ @], Done>>
    [] o.op = "pop" ->
         IF HasKey(s.items, o.k) THEN <<[s EXCEPT !.items = Del(@, o.k)], Val(s.items[o.k])>>
         ELSE <<s, Raised("KeyError")>>
    [] o.op = "setdefault" ->
         IF HasKey(s.items, o.k) THEN <<s, Val(s.items[o.k])>>
         ELSE <<[s EXCEPT !.items = Put(@, o.k, o.v)], Val(o.v)>>
    [] o.op = "clear" -> <<[s EXCEPT !.items = Empty], Done>>
    \* go on with a copy
    [] o.op = "clone" -> <<s, Done>>
    \* start again with a mapping made of this one's items
    [] o.op = "remake" -> <<[items |-> s.items, attrs |-> Empty], Done>>

-----------------------------------------------------------------------------
\* C08
\* Items and attributes agree, except for names of methods.
Agree(s, keys) == \A k \in keys \ Methods :
   /\ GetItem(s, k).k = "value" => GetAttr(s, k) = GetItem(s, k)
   /\ GetItem(s, k).k = "raise" <=> GetAttr(s, k) = Raised("AttributeError")
\* Items with the name of a method do not replace it.
MethodsStay(s, keys) == \A k \in keys \cap Methods :
   ~HasKey(s.attrs, k) => GetAttr(s, k) = TheMethod
NdOk(s, keys) == Agree(s, keys) /\ MethodsStay(s, keys) /\ DOMAIN s.attrs \subseteq Methods
=============================================================================
