-------------------------------- MODULE Dom ---------------------------------
(***************************************************************************)
(* The state of a parser and its transitions: one per parsing event.        *)
(*                                                                          *)
(* The document is an arena of nodes.  Node 0 is the document itself.       *)
(***************************************************************************)
EXTENDS Text

VoidTags == {"area", "base", "br", "col", "embed", "hr", "img", "input", "link",
             "meta", "param", "source", "track", "wbr"}

\* An attribute: [n |-> name, has |-> does it have a value, v |-> the value]
NoAttr == [n |-> "", has |-> FALSE, v |-> <<>>]
\* The last one of several attributes of the same name counts.
AttrPos(attrs, name) == SelectLastInSeq(attrs, LAMBDA a : a.n = name)
HasAttr(attrs, name) == AttrPos(attrs, name) > 0
Attr(attrs, name) == IF HasAttr(attrs, name) THEN attrs[AttrPos(attrs, name)] ELSE NoAttr

NewNode(kind, tag, parent, attrs, raw, pre, ref) ==
  [kind |-> kind, tag |-> tag, parent |-> parent, attrs |-> attrs, raw |-> raw,
   pre |-> pre, ref |-> ref, ch |-> <<>>, pend |-> <<>>]

EmptyDoc == [nodes |-> <<>>, roots |-> <<>>, stack |-> <<>>,
             nextRef |-> 1, foot |-> <<>>, pend |-> <<>>]

Top(ps) == IF ps.stack = <<>> THEN 0 ELSE ps.stack[Len(ps.stack)]
Kids(ps, i) == IF i = 0 THEN ps.roots ELSE ps.nodes[i].ch

\* The innermost element around a link that is not a link itself
RECURSIVE Outside(_, _)
Outside(ps, p) == IF p = 0 \/ ps.nodes[p].kind # "link" THEN p ELSE Outside(ps, ps.nodes[p].parent)

AddChild(ps, p, i) ==
  IF p = 0 THEN [ps EXCEPT !.roots = Append(@, i)]
  ELSE [ps EXCEPT !.nodes[p].ch = Append(@, i)]

IsLink(tag, attrs) == tag = "img" \/ (tag = "a" /\ Attr(attrs, "href").has)
\* Where the link of an element goes: "inline", "footer" or "after_block"
PlacementOf(cfg, tag) == IF tag = "img" THEN cfg.ip ELSE cfg.lp

Start(ps, cfg, tag, attrs) ==
  LET p    == Top(ps)
      i    == Len(ps.nodes) + 1
      link == IsLink(tag, attrs)
      pl   == PlacementOf(cfg, tag)
      node == NewNode(IF link THEN "link" ELSE "tag", tag, p, attrs, <<>>, FALSE,
                      IF link THEN ps.nextRef ELSE 0)
      s1   == AddChild([ps EXCEPT !.nodes = Append(@, node)], p, i)
      s2   == IF ~link \/ pl = "inline" THEN s1
              ELSE LET s == [s1 EXCEPT !.nextRef = @ + 1]
                   IN IF pl = "footer" THEN [s EXCEPT !.foot = Append(@, i)]
                      ELSE IF pl = "after_block"
                      \* after the element that it is in, but never within a link
                      THEN LET q == Outside(ps, p)
                           IN IF q = 0 THEN [s EXCEPT !.pend = Append(@, i)]
                              ELSE [s EXCEPT !.nodes[q].pend = Append(@, i)]
                      ELSE s
  IN [s2 EXCEPT !.stack = IF tag \in VoidTags THEN @ ELSE Append(@, i)]

End(ps, tag) ==
  IF tag \notin VoidTags /\ Top(ps) # 0 /\ ps.nodes[Top(ps)].tag = tag
  THEN [ps EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
  ELSE ps      \* mismatched: ignored

\* Is the text that comes now preformatted?
InPre(ps) == \E k \in DOMAIN ps.stack : ps.nodes[ps.stack[k]].tag = "pre"

\* Consecutive pieces of text are one text.
Data(ps, d) ==
  LET p == Top(ps)
      k == Kids(ps, p)
      last == IF k = <<>> THEN 0 ELSE k[Len(k)]
      i == Len(ps.nodes) + 1
  IN IF d = <<>> THEN ps
     ELSE IF last # 0 /\ ps.nodes[last].kind = "data" /\ ps.nodes[last].pre = InPre(ps)
     THEN [ps EXCEPT !.nodes[last].raw = @ \o d]
     ELSE AddChild([ps EXCEPT !.nodes = Append(@, NewNode("data", "", p, <<>>, d, InPre(ps), 0))], p, i)

\* One parsing event
Step(ps, cfg, e) ==
  CASE e.t = "start"    -> Start(ps, cfg, e.tag, e.attrs)
    [] e.t = "end"      -> End(ps, e.tag)
    [] e.t = "startend" -> End(Start(ps, cfg, e.tag, e.attrs), e.tag)
    [] e.t = "data"     -> Data(ps, e.d)
    [] e.t = "comment"  -> ps

Steps(ps, cfg, es) == FoldLeft(LAMBDA s, e : Step(s, cfg, e), ps, es)

\* The end of the document leaves no element open.
CloseDoc(ps) == [ps EXCEPT !.stack = <<>>]

\* What a text shows: outside preformatted text, the whitespace around line
\* breaks is one space, and so is every run of spaces and tabs.
Collapse(s) ==
  LET idx == SelectSeq(TLCEval([i \in 1..Len(s) |-> i]),
               LAMBDA i : ~(s[i] \in {SP, TAB} /\ i > 1 /\ s[i-1] \in {SP, TAB}))
  IN Map(LAMBDA i : IF s[i] = TAB THEN SP ELSE s[i], idx)
Shown(node) ==
  IF node.pre THEN node.raw
  ELSE LET ls == SplitOn(node.raw, NL)
           n  == Len(ls)
           t  == MapI(LAMBDA i, l : IF n = 1 THEN l
                                    ELSE IF i = 1 THEN RStrip(l)
                                    ELSE IF i = n THEN LStrip(l)
                                    ELSE Strip(l), ls)
       IN Collapse(Join(t, <<SP>>))

-----------------------------------------------------------------------------
\* Structure

TagKids(ps, i) == SelectSeq(Kids(ps, i), LAMBDA k : ps.nodes[k].kind # "data")

RECURSIVE Preorder(_, _)
Preorder(ps, ks) == Flat(Map(LAMBDA k : <<k>> \o Preorder(ps, ps.nodes[k].ch), ks))

RECURSIVE AncestorsOf(_, _)
AncestorsOf(ps, i) == IF i = 0 THEN {} ELSE {ps.nodes[i].parent} \cup AncestorsOf(ps, ps.nodes[i].parent)

\* Every node is in the document once, in the order of its start.
TreeOk(ps) == Preorder(ps, ps.roots) = [i \in 1..Len(ps.nodes) |-> i]
ParentsOk(ps) == \A i \in 1..Len(ps.nodes) :
                   \E k \in DOMAIN Kids(ps, ps.nodes[i].parent) : Kids(ps, ps.nodes[i].parent)[k] = i
\* The open elements are nested within each other.
StackOk(ps) == \A k \in 1..Len(ps.stack) :
                 /\ ps.nodes[ps.stack[k]].kind # "data"
                 /\ ps.nodes[ps.stack[k]].parent = (IF k = 1 THEN 0 ELSE ps.stack[k-1])
VoidOk(ps) == \A i \in 1..Len(ps.nodes) : ps.nodes[i].tag \in VoidTags => ps.nodes[i].ch = <<>>
DataLeaf(ps) == \A i \in 1..Len(ps.nodes) : ps.nodes[i].kind = "data" => ps.nodes[i].ch = <<>> /\ ps.nodes[i].raw # <<>>
\* Two texts next to each other would have been one.
NoAdjacentData(ps) ==
  \A i \in 0..Len(ps.nodes) : LET k == Kids(ps, i) IN \A j \in 1..(Len(k) - 1) :
     ~(ps.nodes[k[j]].kind = "data" /\ ps.nodes[k[j+1]].kind = "data"
       /\ ps.nodes[k[j]].pre = ps.nodes[k[j+1]].pre)
\* Link numbers: 1, 2, 3, ... in the order of the document, for those not inline
Refs(ps, cfg) == Map(LAMBDA i : ps.nodes[i].ref,
                     SelectSeq(TLCEval([i \in 1..Len(ps.nodes) |-> i]),
                       LAMBDA i : ps.nodes[i].kind = "link" /\ PlacementOf(cfg, ps.nodes[i].tag) # "inline"))
RefsOk(ps, cfg) == LET r == Refs(ps, cfg) IN r = [i \in 1..Len(r) |-> i] /\ ps.nextRef = Len(r) + 1
\* Every link that is not inline waits in one place.
RECURSIVE PendCount(_, _, _)
PendCount(ps, i, n) == IF n > Len(ps.nodes) THEN 0
  ELSE Len(SelectSeq(ps.nodes[n].pend, LAMBDA x : x = i)) + PendCount(ps, i, n + 1)
PendingOk(ps, cfg) == \A i \in 1..Len(ps.nodes) :
  Len(SelectSeq(ps.foot, LAMBDA x : x = i)) + Len(SelectSeq(ps.pend, LAMBDA x : x = i)) + PendCount(ps, i, 1)
    = (IF ps.nodes[i].kind = "link" /\ PlacementOf(cfg, ps.nodes[i].tag) # "inline" THEN 1 ELSE 0)
=============================================================================
