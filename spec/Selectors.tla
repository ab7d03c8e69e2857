----------------------------- MODULE Selectors ------------------------------
(***************************************************************************)
(* CSS selectors: their meaning on a document, and their specificity.       *)
(*                                                                          *)
(* A selector is a record with the kind k:                                  *)
(*   el (element t), any (universal), class, hash, attr, not, ps, nth, comb,*)
(*   pe (pseudo-element).  Those with a namespace ns match nothing.         *)
(***************************************************************************)
EXTENDS Dom

AttrTest(op, val, v) ==
  CASE op = "exists" -> TRUE
    [] op = "="  -> val = v
    [] op = "~=" -> v # <<>> /\ \E k \in DOMAIN HtmlWords(val) : HtmlWords(val)[k] = v
    [] op = "|=" -> val = v \/ HasPrefix(val, v \o <<45>>)
    [] op = "^=" -> v # <<>> /\ HasPrefix(val, v)
    [] op = "$=" -> v # <<>> /\ HasSuffix(val, v)
    [] op = "*=" -> v # <<>> /\ HasSub(val, v)
    [] OTHER -> FALSE

AttrValue(attrs, name) ==
  LET a == Attr(attrs, name)
  IN IF ~a.has THEN <<>> ELSE a.v

\* An+B
Series(a, b, pos) ==
  IF a = 0 THEN pos = b
  ELSE IF a > 0 THEN pos >= b /\ (pos - b) % a = 0
  ELSE pos <= b /\ (b - pos) % (-a) = 0

RECURSIVE Sel(_, _, _)
\* Does node i match the selector s?
Sel(ps, i, s) ==
  IF i = 0 \/ ps.nodes[i].kind = "data" THEN FALSE
  ELSE
  LET n    == ps.nodes[i]
      sibs == TagKids(ps, n.parent)
      pos  == SelectInSeq(sibs, LAMBDA x : x = i)
      RECURSIVE anc(_)
      anc(j) == IF j = 0 THEN FALSE ELSE Sel(ps, j, s.l) \/ anc(ps.nodes[j].parent)
  IN CASE s.k = "any"   -> TRUE
       [] s.k = "el"    -> n.tag = s.t /\ "ns" \notin DOMAIN s
       [] s.k = "class" -> /\ HasAttr(n.attrs, "class")
                           /\ AttrTest("~=", AttrValue(n.attrs, "class"), s.v)
                           /\ Sel(ps, i, s.s)
       [] s.k = "hash"  -> /\ Attr(n.attrs, "id").has
                           /\ Attr(n.attrs, "id").v = s.v
                           /\ Sel(ps, i, s.s)
       [] s.k = "attr"  -> /\ "ns" \notin DOMAIN s
                           /\ HasAttr(n.attrs, s.a)
                           /\ AttrTest(s.op, AttrValue(n.attrs, s.a), s.v)
                           /\ Sel(ps, i, s.s)
       [] s.k = "not"   -> Sel(ps, i, s.s) /\ ~Sel(ps, i, s.x)
       [] s.k = "ps"    -> /\ CASE s.p = "first-child" -> pos = 1
                                [] s.p = "last-child"  -> pos = Len(sibs)
                                [] OTHER -> FALSE
                           /\ Sel(ps, i, s.s)
       [] s.k = "nth"   -> /\ CASE s.f = "nth-child"      -> Series(s.na, s.nb, pos)
                                [] s.f = "nth-last-child" -> Series(s.na, s.nb, Len(sibs) + 1 - pos)
                                [] OTHER -> FALSE
                           /\ Sel(ps, i, s.s)
       [] s.k = "comb"  -> /\ Sel(ps, i, s.r)
                           /\ CASE s.c = " " -> anc(n.parent)
                                [] s.c = ">" -> Sel(ps, n.parent, s.l)
                                [] s.c = "+" -> pos > 1 /\ Sel(ps, sibs[pos-1], s.l)
                                [] s.c = "~" -> \E k \in 1..(pos - 1) : Sel(ps, sibs[k], s.l)
                                [] OTHER -> FALSE
       [] OTHER -> FALSE

RECURSIVE Spec(_)
\* <<ids, classes and the like, elements>>
Spec(s) ==
  LET plus(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
  IN CASE s.k = "any"  -> <<0, 0, 0>>
       [] s.k = "el"   -> <<0, 0, 1>>
       [] s.k = "hash" -> plus(Spec(s.s), <<1, 0, 0>>)
       [] s.k = "not"  -> plus(Spec(s.s), Spec(s.x))
       [] s.k = "comb" -> plus(Spec(s.l), Spec(s.r))
       [] OTHER        -> plus(Spec(s.s), <<0, 1, 0>>)

SpecLess(a, b) == \/ a[1] < b[1]
                  \/ a[1] = b[1] /\ a[2] < b[2]
                  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]

\* A group is a sequence of selectors.  The best specificity of those that
\* match; <<>> if none does.
GroupSpec(ps, i, g) ==
  FoldLeft(LAMBDA acc, s : IF ~Sel(ps, i, s) THEN acc
                           ELSE IF acc = <<>> \/ SpecLess(acc, Spec(s)) THEN Spec(s) ELSE acc,
           <<>>, g)
=============================================================================
