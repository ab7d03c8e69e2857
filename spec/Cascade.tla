------------------------------ MODULE Cascade -------------------------------
(***************************************************************************)
(* Which renderer and which settings an element gets.                       *)
(*                                                                          *)
(* A rule is [sel |-> group of selectors, r |-> renderer or "none",         *)
(* s |-> settings].  A table is a sequence of rules, in order of definition. *)
(***************************************************************************)
EXTENDS Selectors

NoSettings == <<>> \* the empty function

El(t) == [k |-> "el", t |-> t]
PsC(s, p) == [k |-> "ps", s |-> s, p |-> p]
Comb(l, c, r) == [k |-> "comb", c |-> c, l |-> l, r |-> r]
Rule(g, r, s) == [sel |-> g, r |-> r, s |-> s]
R1(t, r) == Rule(<<El(t)>>, r, NoSettings)
M4(a, b, c, d) == [margin |-> <<a, b, c, d>>]

DefaultRules == <<
  R1("h1", "MdHeader"), R1("h2", "MdHeader"), R1("h3", "MdHeader"),
  R1("h4", "MdHeader"), R1("h5", "MdHeader"), R1("h6", "MdHeader"),
  R1("p", "Paragraph"), R1("br", "Break"), R1("blockquote", "BlockQuote"),
  Rule(<<Comb(El("blockquote"), ">", PsC(El("p"), "first-child"))>>, "none", M4(0, 0, 1, 0)),
  Rule(<<Comb(El("blockquote"), ">", PsC(El("p"), "last-child"))>>, "none", M4(1, 0, 0, 0)),
  Rule(<<Comb(El("blockquote"), ">", PsC(PsC(El("p"), "last-child"), "first-child"))>>, "none", M4(0, 0, 0, 0)),
  R1("pre", "Pre"), R1("div", "Block"), R1("ul", "List"), R1("ol", "List"), R1("li", "ListItem"),
  Rule(<<Comb(El("ol"), ">", El("li"))>>, "OLItem", NoSettings),
  Rule(<<PsC(El("li"), "first-child")>>, "none", M4(0, 0, 0, 0)),
  Rule(<<Comb(Comb(El("li"), ">", El("ol")), ">", PsC(El("li"), "first-child")),
         Comb(Comb(El("li"), ">", El("ul")), ">", PsC(El("li"), "first-child"))>>, "none", M4(1, 0, 0, 0)),
  R1("dl", "DefList"), R1("dt", "DefTerm"), R1("dd", "DefItem"),
  Rule(<<PsC(El("dt"), "first-child")>>, "none", M4(0, 0, 0, 0)),
  R1("code", "Code"), R1("a", "Link"), R1("img", "Image"), R1("em", "Em"), R1("strong", "Strong"),
  R1("i", "Em"), R1("b", "Strong"), R1("u", "Underline"), R1("ins", "Underline"),
  R1("s", "Strike"), R1("del", "Strike"), R1("span", "Inline") >>

DefaultXRules == << R1("a", "XLink"), R1("img", "XImage") >>

\* The user's rules: one with a selector that is in the table already takes
\* its place, the others come after the table.
Override(table, rules) ==
  FoldLeft(LAMBDA t, u :
     LET k == SelectInSeq(t, LAMBDA x : x.sel = u.sel)
     IN IF k > 0 THEN [t EXCEPT ![k] = u] ELSE Append(t, u), table, rules)

\* The settings of b on top of those of a
Over(a, b) == b @@ a

\* The rules that match, in ascending order of specificity, and then of definition
Matching(ps, i, table) ==
  LET sp == Map(LAMBDA u : GroupSpec(ps, i, u.sel), table)
      ix == SelectSeq(TLCEval([k \in 1..Len(table) |-> k]), LAMBDA k : sp[k] # <<>>)
      less(a, b) == SpecLess(sp[a], sp[b]) \/ (sp[a] = sp[b] /\ a < b)
  IN SortSeq(ix, less)

Assigned(ps, i, table, dflt) ==
  LET m == Matching(ps, i, table)
      s == FoldLeft(LAMBDA acc, k : Over(acc, table[k].s), NoSettings, m)
      rs == SelectSeq(m, LAMBDA k : table[k].r # "none")
  IN IF rs # <<>> THEN [r |-> table[rs[Len(rs)]].r, s |-> s]
     ELSE [r |-> IF dflt.r = "none" THEN "Renderer" ELSE dflt.r, s |-> Over(dflt.s, s)]

Table(cfg)  == Override(DefaultRules, cfg.rules)
XTable(cfg) == Override(DefaultXRules, cfg.xrules)
\* An entry that no rule names a renderer for
XDefault(tag) == [r |-> IF tag = "img" THEN "XImage" ELSE "XLink", s |-> NoSettings]

NoAssignment == [r |-> "none", s |-> NoSettings]
\* For every node: <<assignment, assignment of the extracted link>>
Assignments(ps, cfg) ==
  LET t == TLCEval(Table(cfg))
      x == TLCEval(XTable(cfg))
  IN TLCEval([i \in 1..Len(ps.nodes) |->
       IF ps.nodes[i].kind = "data" THEN <<NoAssignment, NoAssignment>>
       ELSE << Assigned(ps, i, t, cfg.dflt),
               IF ps.nodes[i].kind = "link" THEN Assigned(ps, i, x, XDefault(ps.nodes[i].tag)) ELSE NoAssignment >>])
=============================================================================
