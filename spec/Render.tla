------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* What every kind of renderer makes of the content of its element, and the *)
(* text that a document becomes.                                            *)
(*                                                                          *)
(* A template is a sequence of segments: [l |-> text] or [f |-> name of a    *)
(* field].  The field of a template with one place only is "c".             *)
(***************************************************************************)
EXTENDS Wrap, Cascade, Links, Boxes

Lit(t) == [l |-> t]
Fld(f) == [f |-> f]
IsLit(g) == "l" \in DOMAIN g
C1 == <<Fld("c")>>
Wrapped(a, b) == <<Lit(a), Fld("c"), Lit(b)>>

Fill(tpl, vals) == Flat(Map(LAMBDA g : IF IsLit(g) THEN g.l ELSE vals[g.f], tpl))
Fill1(tpl, t) == Fill(tpl, [c |-> t])
\* The columns that a line template takes up besides the line
TplWidth(tpl) == Sum(Map(LAMBDA g : IF IsLit(g) THEN Len(g.l) ELSE 2, tpl)) - 2

T_none == [k |-> "none"]
S_Inline == [template |-> C1, capitalized |-> FALSE]
S_Block  == [border |-> <<<<>>, <<>>, <<>>, <<>>>>, margin |-> ZeroSides, padding |-> ZeroSides]
S_Header == [template |-> C1, capitalized |-> FALSE, spread |-> 0, spread_char |-> <<SP>>,
             centered |-> FALSE, underlined |-> FALSE, underline_char |-> <<61>>,
             underline_full |-> FALSE, margin |-> <<1, 0, 1, 0>>]
S_Lines  == [initial_indent |-> 0, subsequent_indent |-> 0, justification |-> "left",
             capitalized |-> FALSE, fix_sentence_endings |-> TRUE, break_long_words |-> TRUE]
S_Para   == Over(S_Lines, [skip_for_code_or_pre |-> TRUE, margin |-> <<1, 0, 1, 0>>, line_template |-> C1])
S_Item   == Over(S_Lines, [line_template |-> <<Lit(<<42, 32>>), Fld("c")>>, margin |-> <<1, 0, 0, 0>>])
TextEntry == <<Lit(<<10, 91>>), Fld("ref"), Lit(<<93, 32>>), Fld("desc"), Lit(<<58, 32>>), Fld("href")>>
S_XLink  == [templates |-> <<TextEntry, TextEntry \o <<Lit(<<32, 34>>), Fld("title"), Lit(<<34>>)>>>>,
             gophermap_template |-> <<Fld("type"), Lit(<<91>>), Fld("ref"), Lit(<<93, 32>>), Fld("desc"),
                                      Lit(<<9>>), Fld("selector"), Lit(<<9>>), Fld("host"), Lit(<<9>>),
                                      Fld("port"), Lit(<<10>>)>>,
             max_link_description |-> 10]
T_Image == <<73, 109, 97, 103, 101>>

\* The settings that a class of renderers has, its bases included
ClassSettings(kind) ==
  CASE kind = "Inline"    -> S_Inline
    [] kind = "Block"     -> S_Block
    [] kind \in {"Header", "MdHeader"} -> Over(S_Block, S_Header)
    [] kind = "DefTerm"   -> Over(Over(S_Block, S_Header), [margin |-> <<2, 0, 0, 0>>, padding |-> ZeroSides])
    [] kind = "Paragraph" -> Over(S_Block, S_Para)
    [] kind = "Code"      -> Over(S_Inline, [block_template |-> Wrapped(<<96, 96, 96, 10>>, <<10, 96, 96, 96, 10>>),
                                             inline_template |-> Wrapped(<<96>>, <<96>>)])
    [] kind = "Pre"       -> Over(S_Block, [line_template |-> C1, indent |-> 4, margin |-> <<1, 0, 1, 0>>])
    [] kind = "Link"      -> Over(S_Inline,
         [templates |-> [reference |-> <<Lit(<<91>>), Fld("content"), Lit(<<93, 91>>), Fld("ref"), Lit(<<93>>)>>,
                         inline |-> << <<Lit(<<91>>), Fld("content"), Lit(<<93, 40>>), Fld("href"), Lit(<<41>>)>>,
                                       <<Lit(<<91>>), Fld("content"), Lit(<<93, 40>>), Fld("href"), Lit(<<32, 34>>),
                                         Fld("title"), Lit(<<34, 41>>)>> >>]])
    [] kind = "Image"     -> Over(S_Inline,
         [templates |-> [reference |-> <<Lit(<<91>>), Fld("title"), Lit(<<93, 91>>), Fld("ref"), Lit(<<93>>)>>,
                         inline |-> <<Lit(<<33, 91>>), Fld("title"), Lit(<<93, 40>>), Fld("href"), Lit(<<41>>)>>]])
    [] kind \in {"XLink", "XImage"} -> Over(S_Block, S_XLink)
    [] kind = "Em"        -> Over(S_Inline, [template |-> Wrapped(<<95>>, <<95>>)])
    [] kind = "Strong"    -> Over(S_Inline, [template |-> Wrapped(<<42, 42>>, <<42, 42>>)])
    [] kind = "Underline" -> Over(S_Inline, [template |-> Wrapped(<<95>>, <<95>>)])
    [] kind = "Strike"    -> Over(S_Inline, [template |-> Wrapped(<<126, 126>>, <<126, 126>>)])
    [] kind = "Break"     -> S_Inline
    [] kind = "BlockQuote" -> Over(S_Block, [line_template |-> <<Lit(<<62, 32>>), Fld("c")>>, margin |-> <<1, 0, 1, 0>>])
    [] kind \in {"List", "DefList"} -> Over(S_Block, [margin |-> <<1, 0, 1, 0>>])
    [] kind = "ListItem"  -> Over(S_Block, S_Item)
    [] kind = "OLItem"    -> Over(Over(S_Block, S_Item),
         [line_template |-> <<Fld("ord"), Lit(<<46, 32>>), Fld("item")>>, start_index |-> 1, step |-> 1])
    [] kind = "DefItem"   -> Over(Over(S_Block, S_Item), [line_template |-> <<Lit(<<58, 32>>), Fld("c")>>])
    [] kind = "Ansi"      -> Over(S_Inline,
         [foreground_colour |-> T_none, background_colour |-> T_none, font |-> -1, bold |-> FALSE,
          underline |-> FALSE, invert |-> FALSE, italic |-> FALSE, faint |-> FALSE, slow_blink |-> FALSE,
          rapid_blink |-> FALSE, conceal |-> FALSE, crossed_out |-> FALSE, fraktur |-> FALSE,
          framed |-> FALSE, encircled |-> FALSE, overlined |-> FALSE, normalise |-> FALSE])
    \* The probes of the test harness: they show what they have been given
    [] kind = "P1" -> [k1 |-> 10]
    [] kind = "P2" -> [k2 |-> 20]
    [] kind = "P3" -> [k1 |-> 10, k2 |-> 30]
    [] OTHER -> NoSettings

BlockKinds == {"Block", "Header", "MdHeader", "DefTerm", "Paragraph", "Pre", "XLink", "XImage",
               "BlockQuote", "List", "DefList", "ListItem", "OLItem", "DefItem"}
LineKinds == {"Paragraph", "BlockQuote", "ListItem", "OLItem", "DefItem"}
PlainInline == {"Inline", "Em", "Strong", "Underline", "Strike"}
ProbeKinds == {"P0", "P1", "P2", "P3"}

Capital(s, t) == IF s.capitalized THEN MapVisible(Upper, t) ELSE t
InlineText(s, t) == Fill1(s.template, Capital(s, t))

\* "{0}. {1}" becomes "7. {}"
ItemTemplate(tpl, n) ==
  IF \E k \in DOMAIN tpl : ~IsLit(tpl[k]) /\ tpl[k].f = "item"
  THEN Map(LAMBDA g : IF IsLit(g) THEN g ELSE IF g.f = "ord" THEN Lit(IntText(n)) ELSE Fld("c"), tpl)
  ELSE tpl

HeaderLevel == [h1 |-> 1, h2 |-> 2, h3 |-> 3, h4 |-> 4, h5 |-> 5, h6 |-> 6]

\* The settings of a node, with what its renderer makes of them
Settle(ps, i, kind, s) ==
  LET all == Over(ClassSettings(kind), s)
  IN CASE kind = "MdHeader" ->
            LET h == Rep(<<35>>, HeaderLevel[ps.nodes[i].tag])
            IN Over(all, [template |-> Wrapped(h \o <<SP>>, <<SP>> \o h)])
       [] kind = "OLItem" ->
            LET tag == ps.nodes[i].tag
                items == SelectSeq(TagKids(ps, ps.nodes[i].parent), LAMBDA k : ps.nodes[k].tag = tag)
                n == SelectInSeq(items, LAMBDA k : k = i) - 1
            IN Over(all, [line_template |-> ItemTemplate(all.line_template, n * all.step + all.start_index)])
       [] OTHER -> all

BoxFor(kind, s, par) ==
  IF kind \notin BlockKinds THEN par
  ELSE SubBox(par, s.margin, s.padding, Map(Len, s.border),
              IF kind \in LineKinds THEN TplWidth(s.line_template) ELSE 0)

-----------------------------------------------------------------------------
\* Blocks

Indented(t, n) == IF n <= 0 THEN t ELSE Flat(Map(LAMBDA l : Spaces(n) \o l, SplitLinesKeep(t)))
Outer(b, t) == Newlines(b.m[TOP]) \o Indented(t, b.m[LEFT]) \o Newlines(b.m[BOTTOM])

Bordered(s, b, t) ==
  LET bd == s.border
      line(l) == bd[LEFT] \o Spaces(b.p[LEFT]) \o l
                 \o Spaces(PaddedWidth(b) - b.p[LEFT] - VisLen(l)) \o bd[RIGHT]
      pad == bd[LEFT] \o Spaces(PaddedWidth(b)) \o bd[RIGHT]
      rule(c) == Rep(<<c>>, BorderedWidth(b))
      pads(n) == IF n <= 0 THEN <<>> ELSE TLCEval([k \in 1..n |-> pad])
  IN Join(Map(rule, bd[TOP]) \o pads(b.p[TOP]) \o Map(line, SplitOn(t, NL))
          \o pads(b.p[BOTTOM]) \o Map(rule, bd[BOTTOM]), <<NL>>)

WrapArgs(s) ==
  TLCEval([x \in DOMAIN WrapDefaults |-> IF x \in DOMAIN s THEN s[x] ELSE WrapDefaults[x]])

ParagraphText(ps, i, s, b, t) ==
  LET kids == ps.nodes[i].ch
      skip == s.skip_for_code_or_pre /\ Len(kids) = 1 /\ ps.nodes[kids[1]].tag \in {"code", "pre"}
      w == WrapWidth(b)
      o == WrapArgs(s)
      parts == Map(LAMBDA p : Justify(VisStrip(p), s.justification, w, o), SplitOn(Capital(s, t), NL))
      \* a line of the parts is a line of the paragraph
      lines == Flat(Map(LAMBDA p : SplitOn(p, NL), parts))
  IN IF skip THEN t
     ELSE Join(Map(LAMBDA l : Fill1(s.line_template, l), lines), <<NL>>)

\* A list item: every line of the content is justified on its own, with the
\* line template for the first, and room for it before the others.
ItemText(s, b, t) ==
  LET w == WrapWidth(b)
      o == WrapArgs(s)
      o2 == [o EXCEPT !.initial_indent = o.subsequent_indent]
      \* escape sequences of lines that look blank go to the next one
      all == SplitOn(Capital(s, t), NL)
      seen(l) == ~Blank(Visible(l))
      inks == SelectSeq(TLCEval([k \in DOMAIN all |-> k]), LAMBDA k : seen(all[k]))
      m == Len(inks)
      skipped(k, j) == Flat(Map(VisStrip, SubSeq(all, k, j)))
      part(k) == Justify(skipped(IF k = 1 THEN 1 ELSE inks[k-1] + 1, inks[k] - 1) \o all[inks[k]],
                         s.justification, w, IF k = 1 THEN o ELSE o2)
      rest == skipped(IF m = 0 THEN 1 ELSE inks[m] + 1, Len(all))
      parts == LET ps == TLCEval([k \in 1..m |-> part(k)])
               IN IF rest = <<>> THEN ps
                  ELSE IF m = 0 THEN <<rest>> ELSE [ps EXCEPT ![m] = @ \o rest]
      lines == SplitOn(Join(parts, <<NL>>), NL)
      n == TplWidth(s.line_template)
  IN Join(MapI(LAMBDA k, l : IF k = 1 THEN Fill1(s.line_template, l) ELSE Spaces(n) \o l, lines), <<NL>>)

\* Something between all visible characters; escape sequences stay before theirs.
Spread(t, by) ==
  LET spans == EscSpans(t)
      hidden(i) == \E k \in DOMAIN spans : i >= spans[k][1] /\ i <= spans[k][2]
      vis == SelectSeq(TLCEval([i \in 1..Len(t) |-> i]), LAMBDA i : ~hidden(i))
      n == Len(vis)
  IN Join(TLCEval([k \in 1..n |-> SubSeq(t, IF k = 1 THEN 1 ELSE vis[k-1] + 1, vis[k])]), by)
     \o (IF n = 0 THEN t ELSE SubSeq(t, vis[n] + 1, Len(t)))

HeaderText(s, b, t) ==
  LET w == InnerWidth(b)
      cen(x) == IF s.centered THEN Center(x, w) ELSE x
      c == Capital(s, t)
      sp == IF s.spread > 0 /\ c # <<>>
            THEN Spread(c, Rep(s.spread_char, s.spread)) ELSE c
      inner == Fill1(s.template, sp)
      ul == Rep(s.underline_char, IF s.underline_full THEN w ELSE VisLen(inner))
  IN IF s.underlined THEN cen(inner) \o <<NL>> \o cen(ul) ELSE cen(inner)

PreText(s, t) ==
  Join(Map(LAMBDA l : Spaces(s.indent) \o Fill1(s.line_template, l), VisLines(t)), <<NL>>)
QuoteText(s, t) == Join(Map(LAMBDA l : Fill1(s.line_template, l), VisLines(t)), <<NL>>)

-----------------------------------------------------------------------------
\* Links

\* The texts of an attribute: title or alternative text, and target
TitleOf(n) == Attr(n.attrs, IF n.tag = "img" THEN "alt" ELSE "title")
HrefOf(n)  == Attr(n.attrs, IF n.tag = "img" THEN "src" ELSE "href")
Title1(n)  == IF TitleOf(n).v = <<>> THEN T_Image ELSE TitleOf(n).v
Dots == <<46, 46, 46>>

LinkText(cfg, n, s, t) ==
  LET c == Capital(s, InlineText(s, t))
      vals == [content |-> c, href |-> HrefOf(n).v, title |-> TitleOf(n).v, ref |-> IntText(n.ref)]
  IN IF n.kind # "link" THEN c
     ELSE IF cfg.lp = "inline"
     THEN Fill(s.templates.inline[IF TitleOf(n).v # <<>> THEN 2 ELSE 1], vals)
     ELSE Fill(s.templates.reference, vals)

ImageText(cfg, n, s) ==
  LET vals == [href |-> HrefOf(n).v, title |-> Title1(n), ref |-> IntText(n.ref)]
  IN IF cfg.ip = "inline" THEN Fill(s.templates.inline, vals) ELSE Fill(s.templates.reference, vals)

\* The entry of an extracted link: before the box is drawn around it
EntryText(cfg, n, kind, s, t) ==
  LET link == kind = "XLink"
      full == IF link THEN Visible(VisStrip(t)) ELSE Strip(Title1(n))
      trim == Len(full) > s.max_link_description
      desc == IF trim THEN SubSeq(full, 1, s.max_link_description) \o Dots
              ELSE IF link THEN VisStrip(t) ELSE full
      gl   == GopherLink(HrefOf(n).v, cfg.host, cfg.port)
      gd   == IF link /\ TitleOf(n).has THEN TitleOf(n).v ELSE desc
      \* the second template is the one with the title
      titled == IF link THEN TitleOf(n).v # <<>> ELSE trim
  IN IF cfg.fmt = "gophermap"
     THEN Fill(s.gophermap_template,
            [desc |-> Join(Words(gd), <<SP>>), ref |-> IntText(n.ref), type |-> gl.type,
             selector |-> gl.selector, host |-> gl.host, port |-> gl.port])
     ELSE Fill(s.templates[IF titled THEN 2 ELSE 1],
            [desc |-> desc, ref |-> IntText(n.ref), href |-> HrefOf(n).v,
             title |-> IF link THEN TitleOf(n).v ELSE Title1(n)])

-----------------------------------------------------------------------------
\* The probes

TagCodes == [x |-> <<120>>, y |-> <<121>>, z |-> <<122>>, w |-> <<119>>, q |-> <<113>>,
             p |-> <<112>>, a |-> <<97>>, b |-> <<98>>, i |-> <<105>>, u |-> <<117>>, s |-> <<115>>,
             em |-> <<101, 109>>, img |-> <<105, 109, 103>>, br |-> <<98, 114>>, hr |-> <<104, 114>>,
             div |-> <<100, 105, 118>>, span |-> <<115, 112, 97, 110>>, li |-> <<108, 105>>,
             ul |-> <<117, 108>>, ol |-> <<111, 108>>, pre |-> <<112, 114, 101>>,
             code |-> <<99, 111, 100, 101>>, input |-> <<105, 110, 112, 117, 116>>,
             wbr |-> <<119, 98, 114>>, meta |-> <<109, 101, 116, 97>>, col |-> <<99, 111, 108>>,
             area |-> <<97, 114, 101, 97>>, base |-> <<98, 97, 115, 101>>,
             embed |-> <<101, 109, 98, 101, 100>>, link |-> <<108, 105, 110, 107>>,
             param |-> <<112, 97, 114, 97, 109>>, source |-> <<115, 111, 117, 114, 99, 101>>,
             track |-> <<116, 114, 97, 99, 107>>,
             dl |-> <<100, 108>>, dt |-> <<100, 116>>, dd |-> <<100, 100>>,
             strong |-> <<115, 116, 114, 111, 110, 103>>, ins |-> <<105, 110, 115>>,
             del |-> <<100, 101, 108>>,
             font |-> <<102, 111, 110, 116>>,
             h1 |-> <<104, 49>>, h2 |-> <<104, 50>>, h3 |-> <<104, 51>>,
             section |-> <<115, 101, 99, 116, 105, 111, 110>>, blockquote |-> <<98, 113>>]
ProbeCode == [P0 |-> <<48>>, P1 |-> <<49>>, P2 |-> <<50>>, P3 |-> <<51>>]
ProbeKeys == <<"k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8">>
\* (tag.0 k1=5:content)
ProbeText(n, kind, s, t) ==
  <<40>> \o TagCodes[n.tag] \o <<46>> \o ProbeCode[kind]
  \o Flat(MapI(LAMBDA j, k : IF k \in DOMAIN s THEN <<SP, 107, 48 + j, 61>> \o IntText(s[k]) ELSE <<>>, ProbeKeys))
  \o <<58>> \o t \o <<41>>

-----------------------------------------------------------------------------
\* One element

\* What a renderer of this kind makes of the content t of node i
Made(ps, cfg, i, kind, s, b, t) ==
  LET n == ps.nodes[i]
      parentTag == IF n.parent = 0 THEN "" ELSE ps.nodes[n.parent].tag
      block(x) == Outer(b, Bordered(s, b, x))
  IN CASE kind = "NonRenderer" -> <<>>
       [] kind \in PlainInline -> InlineText(s, t)
       [] kind = "Break"   -> Fill1(s.template, InlineText(s, <<NL>>))
       [] kind = "Ansi"    -> AnsiEnable(s) \o AnsiRestore(s, InlineText(s, t)) \o AnsiDisable(s)
       [] kind = "Code"    -> IF parentTag = "pre" THEN t
                              ELSE IF Contains1(t, NL) THEN Fill1(s.block_template, t)
                              ELSE Fill1(s.inline_template, t)
       [] kind = "Link"    -> LinkText(cfg, n, s, t)
       [] kind = "Image"   -> ImageText(cfg, n, s)
       [] kind \in {"Block", "List", "DefList"} -> block(t)
       [] kind \in {"Header", "MdHeader", "DefTerm"} -> block(HeaderText(s, b, t))
       [] kind = "Paragraph" -> block(ParagraphText(ps, i, s, b, t))
       [] kind = "Pre"     -> block(PreText(s, t))
       [] kind = "BlockQuote" -> block(QuoteText(s, t))
       [] kind \in {"ListItem", "OLItem", "DefItem"} -> block(ItemText(s, b, t))
       [] kind \in {"XLink", "XImage"} ->
            IF cfg.fmt = "gophermap"
            THEN Newlines(b.m[TOP]) \o EntryText(cfg, n, kind, s, t) \o Newlines(b.m[BOTTOM])
            ELSE block(EntryText(cfg, n, kind, s, t))
       [] kind \in ProbeKinds -> ProbeText(n, kind, s, t)
       [] OTHER -> t

\* as: the assignments of all nodes
RECURSIVE Node(_, _, _, _, _)
RECURSIVE LinkNode(_, _, _, _, _)
Content(ps, cfg, as, i, b) == Flat(Map(LAMBDA k : Node(ps, cfg, as, k, b), ps.nodes[i].ch))
Entries(ps, cfg, as, ls, b) ==
  IF ls = <<>> THEN <<>> ELSE <<NL>> \o Flat(Map(LAMBDA k : LinkNode(ps, cfg, as, k, b), ls))

\* A node where it is in the document
Node(ps, cfg, as, i, par) ==
  LET n == ps.nodes[i]
      a == as[i][1]
      s == TLCEval(Settle(ps, i, a.r, a.s))
      b == TLCEval(BoxFor(a.r, s, par))
      t == TLCEval(Content(ps, cfg, as, i, b) \o Entries(ps, cfg, as, n.pend, b))
  IN IF n.kind = "data" THEN Shown(n)
     ELSE IF n.kind = "link" /\ PlacementOf(cfg, n.tag) = "inline" THEN LinkNode(ps, cfg, as, i, par)
     ELSE TLCEval(Made(ps, cfg, i, a.r, s, b, t))

\* A link where it goes: in its place, or as an entry of a list of links
LinkNode(ps, cfg, as, i, par) ==
  LET n == ps.nodes[i]
      a == IF PlacementOf(cfg, n.tag) = "inline" THEN as[i][1] ELSE as[i][2]
      s == TLCEval(Settle(ps, i, a.r, a.s))
      b == TLCEval(BoxFor(a.r, s, par))
  IN TLCEval(Made(ps, cfg, i, a.r, s, b, TLCEval(Content(ps, cfg, as, i, b))))

-----------------------------------------------------------------------------
\* The document

BoxOf(cfg) == RootBox(cfg.width, cfg.margin, cfg.padding, cfg.border)

\* Before trailing whitespace is removed
RawDoc(ps, cfg) ==
  LET as   == Assignments(ps, cfg)
      b    == BoxOf(cfg)
      body == Flat(Map(LAMBDA k : Node(ps, cfg, as, k, b), ps.roots)) \o Entries(ps, cfg, as, ps.pend, b)
      foot == Entries(ps, cfg, as, ps.foot, b)
      gm   == cfg.fmt = "gophermap"
  IN Newlines(b.m[TOP]) \o Indented(IF gm THEN body ELSE body \o foot, b.m[LEFT])
     \o (IF gm THEN foot ELSE <<>>) \o Newlines(b.m[BOTTOM])

Optimised(t) == Join(Map(RStrip, SplitOn(t, NL)), <<NL>>)
DocText(ps, cfg) == LET r == TLCEval(RawDoc(ps, cfg)) IN IF cfg.optimise THEN Optimised(r) ELSE r
=============================================================================
