------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* The bounded worlds that are explored exhaustively: alphabets of parsing   *)
(* events, and configurations.                                              *)
(***************************************************************************)
EXTENDS Props

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf(ch) == 31 + (CHOOSE k \in 1..95 : SubSeq(Printable, k, k) = ch)
\* The text of a string
T(s) == TLCEval([k \in 1..Len(s) |-> CodeOf(SubSeq(s, k, k))])
NLT == <<NL>>

A(n, v) == [n |-> n, has |-> TRUE, v |-> T(v)]
A0(n) == [n |-> n, has |-> FALSE, v |-> <<>>]
SA(t, attrs) == [t |-> "start", tag |-> t, attrs |-> attrs]
S(t) == SA(t, <<>>)
SE(t) == [t |-> "startend", tag |-> t, attrs |-> <<>>]
E(t) == [t |-> "end", tag |-> t]
DC(cs) == [t |-> "data", d |-> cs]
D(s) == DC(T(s))
CM(s) == [t |-> "comment", d |-> T(s)]
IMG(src, alt) == SA("img", <<A("src", src), A("alt", alt)>>)
LNK(href) == SA("a", <<A("href", href)>>)
LNKT(href, title) == SA("a", <<A("href", href), A("title", title)>>)

BaseCfg == [fmt |-> "text", lp |-> "footer", ip |-> "inline", host |-> T("my.host"), port |-> 70,
            width |-> 40, margin |-> ZeroSides, padding |-> ZeroSides, border |-> ZeroSides,
            optimise |-> TRUE, rules |-> <<>>, xrules |-> <<>>,
            dflt |-> [r |-> "Renderer", s |-> NoSettings]]
AnySel == [k |-> "any"]
Cls(s, v) == [k |-> "class", s |-> s, v |-> T(v)]
Hsh(s, v) == [k |-> "hash", s |-> s, v |-> T(v)]
Att(s, a, op, v) == [k |-> "attr", s |-> s, a |-> a, op |-> op, v |-> T(v)]
Neg(s, x) == [k |-> "not", s |-> s, x |-> x]
Nth(s, f, na, nb, txt) == [k |-> "nth", s |-> s, f |-> f, na |-> na, nb |-> nb, txt |-> txt]
\* pseudo-elements, namespaces, and a notation: names in capitals
Pe(s, p) == [k |-> "pe", s |-> s, p |-> p]
ElNs(ns, t) == [k |-> "el", t |-> t, ns |-> ns]
AttNs(s, ns, a) == [k |-> "attr", s |-> s, a |-> a, op |-> "exists", v |-> <<>>, ns |-> ns]
Shouted(s) == [k |-> "el", t |-> s.t, up |-> TRUE]
ProbeAll == <<Rule(<<AnySel>>, "P0", NoSettings)>>
ProbeCfg == [BaseCfg EXCEPT !.rules = ProbeAll]
Cfg(lp, ip, w) == [BaseCfg EXCEPT !.lp = lp, !.ip = ip, !.width = w]
Gm(lp, ip, w) == [Cfg(lp, ip, w) EXCEPT !.fmt = "gophermap"]
Ru(sel, r, s) == Rule(<<sel>>, r, s)
With(cfg, rules) == [cfg EXCEPT !.rules = rules]

\* A paragraph without margins, with these settings, and with its lines in
\* brackets, so that everything about them can be seen
ParaCfg(w, s) == With([Cfg("footer", "inline", w + 2) EXCEPT !.optimise = FALSE],
                      <<Ru(El("p"), "Paragraph", Over([margin |-> ZeroSides, justification |-> "left", line_template |-> Wrapped(T("["), T("]"))], s))>>)
Lt(a, b) == [line_template |-> <<Lit(T(a)), Fld("c"), Lit(T(b))>>]

\* The selectors that are explored, eight in every table
NthC(f, a, b, txt) == Nth(AnySel, f, a, b, txt)
XE == El("x")
YE == El("y")
SelectorTable == <<
  AnySel, XE, Cls(AnySel, "c"), Cls(XE, "c"), Cls(Cls(AnySel, "c"), "d"), Hsh(AnySel, "i"), Hsh(XE, "i"), Neg(AnySel, XE),
  Neg(XE, Cls(AnySel, "c")), Neg(Cls(AnySel, "c"), Hsh(AnySel, "i")), Comb(XE, " ", YE), Comb(XE, ">", YE), Comb(XE, "+", YE),
     Comb(XE, "~", YE), PsC(AnySel, "first-child"), PsC(AnySel, "last-child"),
  PsC(YE, "first-child"), PsC(PsC(AnySel, "first-child"), "last-child"), Neg(AnySel, PsC(AnySel, "first-child")),
     NthC("nth-child", 0, 1, "1"), NthC("nth-child", 0, 2, "2"), NthC("nth-child", 2, 0, "even"), NthC("nth-child", 2, 1, "odd"),
     NthC("nth-child", 2, 1, "2n+1"),
  NthC("nth-child", 3, 2, "3n+2"), NthC("nth-child", -1, 2, "-n+2"), NthC("nth-child", 1, 0, "n"), NthC("nth-child", 1, 2, "n+2"),
     NthC("nth-child", 0, 0, "0"), NthC("nth-child", 2, -1, "2n-1"), NthC("nth-child", -2, 3, "-2n+3"), NthC("nth-child", 0, 3, "0n+3"),
  NthC("nth-last-child", 0, 1, "1"), NthC("nth-last-child", 0, 2, "2"), NthC("nth-last-child", 2, 0, "2n"), NthC("nth-last-child", 2, 1, "odd"),
     NthC("nth-last-child", -1, 2, "-n+2"), Nth(XE, "nth-child", 2, 0, "2n"), Nth(YE, "nth-last-child", 0, 1, "1"), NthC("nth-last-child", 1, 3, "n+3"),
  Comb(Comb(XE, ">", YE), " ", XE), Comb(XE, " ", Comb(YE, ">", XE)), Comb(Comb(XE, "+", YE), ">", XE), Comb(Comb(XE, " ", YE), "+", XE),
     Comb(Cls(AnySel, "c"), " ", Cls(AnySel, "c")), Comb(AnySel, ">", AnySel), Comb(PsC(AnySel, "first-child"), "+", AnySel),
     Comb(Hsh(AnySel, "i"), "~", Cls(AnySel, "c")),
  Att(AnySel, "t", "exists", ""), Att(AnySel, "t", "=", "u-v w"), Att(AnySel, "t", "~=", "w"), Att(AnySel, "t", "|=", "u"),
     Att(AnySel, "t", "^=", "u-"), Att(AnySel, "t", "$=", " w"), Att(AnySel, "t", "*=", "-v"), Att(AnySel, "class", "=", "c d"),
  Att(AnySel, "t", "=", ""), Att(AnySel, "t", "^=", ""), Att(AnySel, "t", "*=", ""), Att(AnySel, "t", "~=", ""),
     Att(AnySel, "t", "|=", "u-v"), Att(AnySel, "class", "~=", "d"), PsC(AnySel, "hover"), PsC(XE, "only-child"),
  \* not supported, or notations of the same
  Pe(XE, "before"), Pe(AnySel, "first-line"), ElNs("ns", "x"), Neg(AnySel, ElNs("ns", "x")), AttNs(AnySel, "ns", "t"), Shouted(XE),
     Neg(AnySel, PsC(AnySel, "hover")), Comb(Shouted(XE), ">", AnySel) >>
KeyRule(sel, k) == Ru(sel, "none", (<<"k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8">>[k] :> 1))
SelectCfgs == TLCEval([n \in 1..9 |->
                With([BaseCfg EXCEPT !.dflt = [r |-> "P0", s |-> NoSettings]],
                     [k \in 1..8 |-> KeyRule(SelectorTable[8 * (n - 1) + k], k)])])

\* A family: events that may come (alpha), after those at the start (pre), for
\* each of the configurations.  wf: only well-formed documents.
Family(f) ==
  CASE f = "nest" ->
    [wf |-> FALSE, pre |-> <<>>, cfgs |-> <<ProbeCfg>>,
     alpha |-> <<S("x"), S("y"), E("x"), E("y"), S("br"), E("br"), SE("x"), D("a"), CM("c")>>]
  [] f = "void" ->
    [wf |-> FALSE, pre |-> <<S("x")>>, cfgs |-> <<ProbeCfg>>,
     alpha |-> <<S("hr"), SE("br"), E("hr"), S("input"), E("x"), D("a"), S("y"), E("y")>>]
  [] f = "text" ->
    [wf |-> TRUE, pre |-> <<>>, cfgs |-> <<Cfg("footer", "inline", 20), Cfg("inline", "inline", 7)>>,
     alpha |-> <<S("p"), E("p"), S("em"), E("em"), S("blockquote"), E("blockquote"), S("li"), E("li"),
                 D("ab {0} c"), D("d%s e "), S("br")>>]
  [] f = "links" ->
    [wf |-> TRUE, pre |-> <<>>,
     cfgs |-> << Cfg("footer", "inline", 60), Cfg("footer", "footer", 60), Cfg("after_block", "footer", 60),
                 Cfg("after_block", "after_block", 60), Cfg("inline", "footer", 60),
                 Cfg("inline", "inline", 60), Cfg("footer", "after_block", 60)>>,
     alpha |-> <<S("p"), E("p"), LNK("/r"), LNKT("/s", "Title"), E("a"), S("a"), IMG("/i", "Pic"), D("some text")>>]
  [] f = "gopher" ->
    [wf |-> TRUE, pre |-> <<>>,
     cfgs |-> << Gm("footer", "inline", 60), [Gm("footer", "footer", 60) EXCEPT !.margin = <<1, 2, 1, 3>>],
                 [Gm("footer", "footer", 30) EXCEPT !.optimise = FALSE, !.margin = <<0, 0, 0, 2>>] >>,
     alpha |-> <<S("p"), E("p"), LNK("gopher://h.org:7070/x.txt"), LNK("/d/"), E("a"), IMG("i.png", "A picture of it"),
                 DC(T("two") \o <<NL, SP>> \o T("words ")), S("blockquote"), E("blockquote"), S("br"),
                 LNKT("http://w.org/", "A title")>>]
  [] f = "space" ->
    [wf |-> TRUE, pre |-> <<S("p")>>, cfgs |-> <<Cfg("footer", "inline", 40)>>,
     alpha |-> <<D("a"), D(" "), DC(<<TAB>>), DC(<<NL>>), S("em"), E("em"), S("br")>>]
  [] f = "inline" ->
    [wf |-> TRUE, pre |-> <<S("p")>>,
     cfgs |-> << Cfg("footer", "inline", 40),
                 With(Cfg("footer", "inline", 40),
                      <<Ru(El("em"), "Em", [capitalized |-> TRUE]),
                        Ru(El("strong"), "Strong", [template |-> <<Lit(T("<")), Fld("c"), Lit(T(">"))>>]),
                        Ru(El("span"), "NonRenderer", NoSettings)>>) >>,
     alpha |-> <<S("em"), E("em"), S("strong"), E("strong"), S("span"), E("span"), D("ab "), D("c"), S("x"), E("x")>>]
  [] f = "pre" ->
    [wf |-> FALSE, pre |-> <<>>,
     cfgs |-> << Cfg("footer", "inline", 12),
                 With(Cfg("footer", "inline", 12),
                      <<Ru(El("pre"), "Pre", [indent |-> 2, line_template |-> <<Lit(T("| ")), Fld("c")>>])>>) >>,
     alpha |-> <<S("pre"), E("pre"), S("code"), E("code"), S("p"), E("p"), DC(T("a  b") \o <<NL>> \o T("   c d")),
                 DC(<<NL>>), S("b"), E("b")>>]
  [] f = "list" ->
    [wf |-> TRUE, pre |-> <<S("ol")>>,
     cfgs |-> << Cfg("footer", "inline", 12),
                 With(Cfg("footer", "inline", 14),
                      <<Ru(Comb(El("ol"), ">", El("li")), "OLItem", [start_index |-> 9, step |-> 2]),
                        Ru(El("ul"), "List", [margin |-> <<0, 0, 0, 2>>])>>) >>,
     alpha |-> <<S("li"), E("li"), S("ol"), E("ol"), S("ul"), E("ul"), D("one two three"), DC(<<NL, SP>>)>>]
  [] f = "defs" ->
    [wf |-> TRUE, pre |-> <<S("dl")>>, cfgs |-> <<Cfg("footer", "inline", 12)>>,
     alpha |-> <<S("dt"), E("dt"), S("dd"), E("dd"), S("p"), E("p"), D("one two three"), DC(<<NL>>)>>]
  [] f = "quote" ->
    [wf |-> TRUE, pre |-> <<S("blockquote")>>,
     cfgs |-> << Cfg("footer", "inline", 16),
                 With(Cfg("footer", "inline", 20),
                      <<Ru(El("blockquote"), "BlockQuote", [line_template |-> <<Lit(T("|| ")), Fld("c")>>, margin |-> <<0, 1, 0, 1>>])>>) >>,
     alpha |-> <<S("p"), E("p"), S("blockquote"), E("blockquote"), S("h2"), E("h2"), D("one two three four")>>]
  [] f = "optimise" ->
    [wf |-> TRUE, pre |-> <<>>,
     cfgs |-> << Cfg("footer", "inline", 16),
                 [Cfg("footer", "inline", 16) EXCEPT !.optimise = FALSE, !.margin = <<1, 1, 1, 2>>] >>,
     alpha |-> <<S("p"), E("p"), S("pre"), E("pre"), S("li"), E("li"), S("div"), E("div"),
                 DC(T("a b  ") \o <<NL>> \o T("  ") \o <<NL>> \o T("c")), D("dd eee ffff ggggg h")>>]
  [] f = "cascade" ->
    [wf |-> TRUE, pre |-> <<>>,
     cfgs |-> LET w == << Ru(El("x"), "P1", [k1 |-> 1]), Ru(Cls(AnySel, "c"), "none", [k1 |-> 2, k2 |-> 2]),
                          Ru(Cls(El("x"), "c"), "P2", [k3 |-> 3]), Ru(AnySel, "P3", [k1 |-> 4, k3 |-> 4]),
                          Ru(Comb(El("x"), " ", El("y")), "none", [k2 |-> 5]) >>
              IN TLCEval([n \in 1..60 |->
                   LET i == ((n - 1) % 5) + 1
                       r1 == (((n - 1) \div 5) % 4) + 1
                       j == IF r1 >= i THEN r1 + 1 ELSE r1
                       r2 == (((n - 1) \div 20) % 3) + 1
                       rest == SelectSeq(<<1, 2, 3, 4, 5>>, LAMBDA q : q # i /\ q # j)
                   IN With(BaseCfg, <<w[i], w[j], w[rest[r2]]>>)]),
     alpha |-> <<S("x"), SA("x", <<A("class", "c")>>), E("x"), S("y"), SA("y", <<A("class", "d c")>>), E("y"), D("t")>>]
  [] f = "ansi" ->
    [wf |-> TRUE, pre |-> <<S("p")>>,
     cfgs |-> << With(Cfg("footer", "inline", 9),
                      <<Ru(El("x"), "Ansi", [bold |-> TRUE, foreground_colour |-> [k |-> "name", v |-> "red"]]),
                        Ru(El("y"), "Ansi", [background_colour |-> [k |-> "int", v |-> 0], underline |-> TRUE]),
                        Ru(El("z"), "Ansi", [font |-> 3, normalise |-> TRUE])>>) >>,
     alpha |-> <<S("x"), E("x"), S("y"), E("y"), S("z"), E("z"), D("ab cde "), D("fghijklmnopqr")>>]
  [] f = "select" ->
    [wf |-> TRUE, pre |-> <<>>, cfgs |-> SelectCfgs,
     alpha |-> <<S("x"), E("x"), S("y"), E("y"), SA("y", <<A("class", "c"), A("id", "i")>>),
                 SA("x", <<A("class", "c d"), A("t", "u-v w")>>), D("t"),
                 SA("x", <<A0("t"), A("id", "i")>>)>>]
  [] f = "siblings" ->
    [wf |-> TRUE, pre |-> <<S("z")>>, cfgs |-> SelectCfgs,
     alpha |-> <<SE("x"), SE("y"), D(" "), CM("c"),
                 [t |-> "startend", tag |-> "x", attrs |-> <<A("class", "c"), A("id", "i")>>]>>]
  [] f = "wrap" ->
    [wf |-> FALSE, pre |-> <<S("p")>>,
     cfgs |-> << ParaCfg(7, NoSettings),
                 ParaCfg(5, [break_long_words |-> FALSE]),
                 ParaCfg(9, [initial_indent |-> 3, subsequent_indent |-> 1]),
                 ParaCfg(8, [initial_indent |-> 0, subsequent_indent |-> 2, fix_sentence_endings |-> FALSE]),
                 ParaCfg(8, [break_on_hyphens |-> FALSE]),
                 ParaCfg(3, [initial_indent |-> 2]) >>,
     alpha |-> <<D("ab"), D("cde "), D("x. "), D("fghijklmno"), D("wo-rd-"), D("y!\" "), D(" "), D("Z--q")>>]
  [] f = "justify" ->
    [wf |-> FALSE, pre |-> <<S("p")>>,
     cfgs |-> << ParaCfg(11, [justification |-> "full"]), ParaCfg(11, [justification |-> "right"]),
                 ParaCfg(10, [justification |-> "center"]), ParaCfg(11, [justification |-> "center"]),
                 ParaCfg(14, [justification |-> "full", initial_indent |-> 2, subsequent_indent |-> 1]),
                 ParaCfg(13, [justification |-> "right", initial_indent |-> 3]),
                 ParaCfg(8, [justification |-> "full", break_long_words |-> FALSE]) >>,
     alpha |-> <<D("ab "), D("c d "), D("efg."), D(" hijkl"), D(" mnopqrstuvwxyz "), D("it ended. ")>>]
  [] f = "boxes" ->
    [wf |-> TRUE, pre |-> <<>>,
     cfgs |-> LET bx(m, p, b) == [margin |-> m, padding |-> p, border |-> b]
                  none == <<<<>>, <<>>, <<>>, <<>>>>
                  full == <<T("-"), T("|"), T("=-"), T("| ")>>
                  base(w) == [Cfg("footer", "inline", w) EXCEPT !.optimise = FALSE]
              IN << With(base(30), <<Ru(El("div"), "Block", bx(<<1, 2, 0, 1>>, ZeroSides, full)),
                                     Ru(El("p"), "Paragraph", bx(ZeroSides, <<1, 1, 0, 2>>, <<<<>>, T("!"), <<>>, T("!")>>))>>),
                    With([base(34) EXCEPT !.margin = <<1, 3, 2, 2>>],
                         <<Ru(El("div"), "Block", bx(<<0, 1, 1, 2>>, <<1, 2, 1, 1>>, full)),
                           Ru(El("h2"), "MdHeader", bx(<<1, 0, 1, 1>>, ZeroSides, <<T("~"), <<>>, T("~"), <<>>>>))>>),
                    With([base(28) EXCEPT !.margin = <<0, 2, 0, 1>>, !.padding = <<0, 2, 0, 1>>, !.border = <<0, 1, 0, 1>>],
                         <<Ru(El("div"), "Block", bx(<<0, 0, 0, 1>>, <<0, 1, 0, 1>>, none)),
                           Ru(El("blockquote"), "BlockQuote", bx(<<1, 1, 1, 1>>, ZeroSides, full)),
                           Ru(El("p"), "Paragraph", bx(<<0, 1, 0, 2>>, ZeroSides, full))>>) >>,
     alpha |-> <<S("div"), E("div"), S("p"), E("p"), S("blockquote"), E("blockquote"), S("h2"), E("h2"),
                 S("li"), E("li"), D("one two three four five six")>>]
  [] f = "heading" ->
    [wf |-> TRUE, pre |-> <<>>,
     cfgs |-> << Cfg("footer", "inline", 30),
                 With([Cfg("footer", "inline", 31) EXCEPT !.optimise = FALSE],
                      <<Ru(El("h1"), "Header", [capitalized |-> TRUE, underlined |-> TRUE, centered |-> TRUE, spread |-> 1]),
                        Ru(El("h3"), "MdHeader", [underlined |-> TRUE, underline_full |-> TRUE, underline_char |-> T("-")])>>),
                 With(Cfg("footer", "inline", 24),
                      <<Ru(El("h1"), "MdHeader", [centered |-> TRUE, underlined |-> TRUE, underline_char |-> T("*")]),
                        Ru(El("h3"), "Header", [spread |-> 2, spread_char |-> T("."), template |-> <<Lit(T("[ ")), Fld("c"), Lit(T(" ]"))>>,
                                                underlined |-> TRUE, padding |-> <<0, 1, 0, 1>>])>>) >>,
     alpha |-> <<S("h1"), E("h1"), S("h3"), E("h3"), S("h6"), E("h6"), S("em"), E("em"), D("ab c"), D("\\d{}"), S("div"), E("div")>>]
=============================================================================
