-------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties, as predicates on the document and the text it became.     *)
(* The model checker evaluates them on the text of the specification, the    *)
(* trace checker on the text that the implementation gave.                   *)
(***************************************************************************)
EXTENDS Session, FiniteSets

AnyS == [k |-> "any"]

SeqSet(s) == {s[k] : k \in DOMAIN s}
LinesOf(out) == SplitOn(out, NL)
Nodes(ps) == DOMAIN ps.nodes
InPreorder(ps) == Preorder(ps, ps.roots)

-----------------------------------------------------------------------------
(* C01: structure *)
RECURSIVE Within(_, _, _)
Within(ps, i, tag) == i # 0 /\ (ps.nodes[i].tag = tag \/ Within(ps, ps.nodes[i].parent, tag))
\* Text is preformatted exactly inside of pre elements, however they came about (C17).
PreOk(ps) == \A i \in Nodes(ps) :
               ps.nodes[i].kind = "data" => (ps.nodes[i].pre <=> Within(ps, ps.nodes[i].parent, "pre"))
Structure(ps) == /\ TreeOk(ps) /\ ParentsOk(ps) /\ StackOk(ps)
                 /\ VoidOk(ps) /\ DataLeaf(ps) /\ NoAdjacentData(ps) /\ PreOk(ps)

RECURSIVE Depth(_, _, _)
\* Parentheses: the depth at the end, or -1 if it was below zero
Depth(t, i, d) == IF d < 0 \/ i > Len(t) THEN d
                  ELSE Depth(t, i + 1, IF t[i] = 40 THEN d + 1 ELSE IF t[i] = 41 THEN d - 1 ELSE d)
Balanced(t) == Depth(t, 1, 0) = 0

-----------------------------------------------------------------------------
(* C04: conservation of text *)

\* Is the node inside of an element that shows nothing (or other things)?
Suppressors == {"NonRenderer", "Break", "Image", "XImage"}
RECURSIVE Hidden(_, _, _)
Hidden(ps, as, i) == IF i = 0 THEN FALSE
                     ELSE as[i][1].r \in Suppressors \/ Hidden(ps, as, ps.nodes[i].parent)
CapsKinds == PlainInline \cup {"Ansi", "Link", "Header", "MdHeader", "DefTerm", "Paragraph",
                               "ListItem", "OLItem", "DefItem"}
RECURSIVE InCaps(_, _, _)
InCaps(ps, as, i) ==
  IF i = 0 THEN FALSE
  ELSE LET s == Over(ClassSettings(as[i][1].r), as[i][1].s)
       IN ("capitalized" \in DOMAIN s /\ s.capitalized /\ as[i][1].r \in CapsKinds
           \* a paragraph that is just a code or pre element leaves it alone
           /\ ~(as[i][1].r = "Paragraph" /\ s.skip_for_code_or_pre /\ Len(ps.nodes[i].ch) = 1
                /\ ps.nodes[ps.nodes[i].ch[1]].tag \in {"code", "pre"}))
          \/ InCaps(ps, as, ps.nodes[i].parent)

\* All the text of the document that is not suppressed, in its order
TextOf(ps, cfg) ==
  LET as == Assignments(ps, cfg)
  IN Flat(Map(LAMBDA i : IF ps.nodes[i].kind # "data" \/ Hidden(ps, as, ps.nodes[i].parent) THEN <<>>
                         ELSE IF InCaps(ps, as, ps.nodes[i].parent) THEN Upper(ps.nodes[i].raw)
                         ELSE ps.nodes[i].raw,
              InPreorder(ps)))
\* The characters that no default renderer adds by itself
TextChars == Letters \cup {123, 125, 37, 92, 60, 38, 36, 64, 8364, 9731}
Conserved(ps, cfg, out, chars) == Keep(Visible(out), chars) = Keep(TextOf(ps, cfg), chars)

-----------------------------------------------------------------------------
(* C05: laws of selectors, C06: of the cascade *)

Elements(ps) == {i \in Nodes(ps) : ps.nodes[i].kind # "data"}
\* The document without its texts
NoTexts(ps) ==
  LET keep(ks) == SelectSeq(ks, LAMBDA k : ps.nodes[k].kind # "data")
  IN [ps EXCEPT !.roots = keep(@), !.nodes = TLCEval([i \in DOMAIN @ |-> [@[i] EXCEPT !.ch = keep(@)]])]
LawSels == <<El("x"), El("y"), [k |-> "class", s |-> AnyS, v |-> <<99>>], [k |-> "hash", s |-> AnyS, v |-> <<105>>]>>
SelectorLaws(ps) ==
  LET bare == TLCEval(NoTexts(ps))
      m(i, s) == Sel(ps, i, s)
      ps1(p) == PsC(AnyS, p)
      nth(f, a, b) == [k |-> "nth", s |-> AnyS, f |-> f, na |-> a, nb |-> b, txt |-> ""]
      not(a, b) == [k |-> "not", s |-> a, x |-> b]
  IN \A i \in Elements(ps) :
       /\ m(i, AnyS)
       \* positions
       /\ m(i, ps1("first-child")) <=> m(i, nth("nth-child", 0, 1))
       /\ m(i, ps1("last-child")) <=> m(i, nth("nth-last-child", 0, 1))
       /\ m(i, nth("nth-child", 2, 0)) # m(i, nth("nth-child", 2, 1))
       /\ m(i, nth("nth-last-child", 2, 0)) # m(i, nth("nth-last-child", 2, 1))
       /\ m(i, nth("nth-child", 1, 0)) /\ ~m(i, nth("nth-child", 0, 0))
       /\ Cardinality({j \in Elements(ps) : ps.nodes[j].parent = ps.nodes[i].parent /\ m(j, ps1("first-child"))}) = 1
       /\ Cardinality({j \in Elements(ps) : ps.nodes[j].parent = ps.nodes[i].parent /\ m(j, ps1("last-child"))}) = 1
       \* negation and combinators
       /\ \A a \in SeqSet(LawSels), b \in SeqSet(LawSels) :
            /\ m(i, not(a, b)) <=> m(i, a) /\ ~m(i, b)
            /\ m(i, Comb(a, ">", b)) => m(i, Comb(a, " ", b))
            /\ m(i, Comb(a, "+", b)) => m(i, Comb(a, "~", b))
            /\ m(i, Comb(a, " ", b)) <=> m(i, b) /\ \E j \in AncestorsOf(ps, i) : m(j, a)
            /\ m(i, Comb(a, "~", b)) => ~m(i, ps1("first-child"))
            /\ Spec(not(a, b)) = Spec(Comb(a, " ", b))
            \* texts never matter
            /\ \A c \in {" ", ">", "+", "~"} : Sel(bare, i, Comb(a, c, b)) = m(i, Comb(a, c, b))

\* What CSS says, not how it is computed: the renderer is that of a rule that
\* no other rule with a renderer beats, and so are all settings.
CascadeLaws(ps, cfg) ==
  LET t == Table(cfg)
      as == Assignments(ps, cfg)
  IN \A i \in Elements(ps) :
       LET hit == {k \in DOMAIN t : \E j \in DOMAIN t[k].sel : Sel(ps, i, t[k].sel[j])}
           sp(k) == GroupSpec(ps, i, t[k].sel)
           beats(a, b) == SpecLess(sp(b), sp(a)) \/ (sp(a) = sp(b) /\ a >= b)
           best(S) == CHOOSE a \in S : \A b \in S : beats(a, b)
           named == {k \in hit : t[k].r # "none"}
           sets(x) == {k \in hit : x \in DOMAIN t[k].s}
           got == as[i][1]
       IN /\ got.r = IF named = {} THEN cfg.dflt.r ELSE t[best(named)].r
          /\ \A x \in UNION {DOMAIN t[k].s : k \in hit} : x \in DOMAIN got.s /\ got.s[x] = t[best(sets(x))].s[x]
          /\ DOMAIN got.s \subseteq (UNION {DOMAIN t[k].s : k \in hit} \cup (IF named = {} THEN DOMAIN cfg.dflt.s ELSE {}))

-----------------------------------------------------------------------------
(* C09: numbers of links.  For texts without brackets of their own. *)

\* The numbers in "][n]", i.e. those of the references
RECURSIVE NumAt(_, _)
NumAt(t, i) == IF i <= Len(t) /\ t[i] \in Digits THEN <<t[i]>> \o NumAt(t, i + 1) ELSE <<>>
RefNums(t) ==
  LET at == SelectSeq(TLCEval([i \in 1..Len(t) |-> i]),
              LAMBDA i : i < Len(t) /\ t[i] = 93 /\ t[i+1] = 91 /\ NumAt(t, i + 2) # <<>>)
  IN Map(LAMBDA i : TextNat(NumAt(t, i + 2)), at)
\* The letters before each of them, i.e. the end of what the reference is for
RECURSIVE LettersBefore(_, _)
LettersBefore(t, i) == IF i < 1 \/ t[i] \notin Letters THEN <<>> ELSE LettersBefore(t, i - 1) \o <<t[i]>>
RefWords(t) ==
  LET at == SelectSeq(TLCEval([i \in 1..Len(t) |-> i]),
              LAMBDA i : i < Len(t) /\ t[i] = 93 /\ t[i+1] = 91 /\ NumAt(t, i + 2) # <<>>)
  IN Map(LAMBDA i : <<LettersBefore(t, i - 1), NumAt(t, i + 2)>>, at)
\* The numbers in "[n] ", i.e. those of the entries
EntryNums(t) ==
  LET at == SelectSeq(TLCEval([i \in 1..Len(t) |-> i]),
              LAMBDA i : /\ t[i] = 91 /\ (i = 1 \/ t[i-1] # 93)
                         /\ NumAt(t, i + 1) # <<>>
                         /\ i + 1 + Len(NumAt(t, i + 1)) <= Len(t)
                         /\ t[i + 1 + Len(NumAt(t, i + 1))] = 93)
  IN Map(LAMBDA i : TextNat(NumAt(t, i + 1)), at)

Ascending(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k+1]
Extracted(ps, cfg) == SelectSeq(InPreorder(ps), LAMBDA i :
                        ps.nodes[i].kind = "link" /\ PlacementOf(cfg, ps.nodes[i].tag) # "inline")
LinkNumbers(ps, cfg, out) ==
  LET n  == Len(Extracted(ps, cfg))
      rs == RefNums(out)
      es == EntryNums(out)
      \* a link within a link has references in the entry of that as well
      nested == \E i \in Nodes(ps) : ps.nodes[i].kind = "link"
                  /\ \E j \in AncestorsOf(ps, i) \ {0} : ps.nodes[j].kind = "link"
  IN /\ RefsOk(ps, cfg)
     /\ SeqSet(es) = 1..n
     /\ Len(es) = n
     /\ cfg.lp = "footer" /\ cfg.ip = "footer" => Ascending(es)
     /\ SeqSet(rs) = 1..n
     /\ ~nested => Len(rs) = n

-----------------------------------------------------------------------------
(* C11: gophermaps *)

\* A link line: type and description, selector, host, port
LinkLine(t) == LET f == SplitOn(t, TAB)
               IN /\ Len(f) = 4
                  /\ f[1] # <<>> /\ f[1][1] \in {48, 49, 57, 73, 103, 104}
                  /\ f[3] # <<>> /\ ~\E x \in SeqSet(f[3]) : x \in SpaceSet
                  /\ f[4] # <<>> /\ \A x \in SeqSet(f[4]) : x \in Digits
\* For texts without tabs of their own
GopherLines(ps, out) ==
  LET ls == SelectSeq(LinesOf(out), LAMBDA t : Contains1(t, TAB))
  IN /\ Len(ls) = Len(ps.foot)
     /\ \A k \in DOMAIN ls : LinkLine(ls[k])
     /\ \A k \in DOMAIN ls : EntryNums(ls[k]) # <<>> /\ EntryNums(ls[k])[1] = ps.nodes[ps.foot[k]].ref
\* The same for lines that follow the block of the link, which come in the
\* order of the blocks' ends.
GopherBlockLines(ps, cfg, out) ==
  LET ls == SelectSeq(LinesOf(out), LAMBDA t : Contains1(t, TAB))
      nums == [k \in DOMAIN ls |-> EntryNums(ls[k])]
      refs == Map(LAMBDA i : ps.nodes[i].ref, Extracted(ps, cfg))
  IN /\ Len(ls) = Len(refs)
     /\ \A k \in DOMAIN ls : LinkLine(ls[k]) /\ nums[k] # <<>>
     /\ {nums[k][1] : k \in DOMAIN ls} = SeqSet(refs)
TabLines(out) == SelectSeq(LinesOf(out), LAMBDA t : Contains1(t, TAB))
\* Some of the fields of the link lines
FieldsOf(out, which) == Map(LAMBDA t : LET f == SplitOn(t, TAB)
                                       IN [k \in which |-> IF k \in DOMAIN f THEN f[k] ELSE <<>>],
                            TabLines(out))
TargetsOf(out) == Map(LAMBDA t : <<IF t = <<>> THEN <<>> ELSE SubSeq(t, 1, 1), Tail(SplitOn(t, TAB))>>, TabLines(out))
\* The text of a gophermap without its link lines is that of a text without
\* its entries
DropBlankEnd(ls) == SubSeq(ls, 1, SelectLastInSeq(ls, LAMBDA t : ~Blank(t)))
GopherBody(gm, txt) ==
  LET body == DropBlankEnd(SelectSeq(LinesOf(gm), LAMBDA t : ~Contains1(t, TAB)))
      ls   == LinesOf(txt)
  IN Len(body) <= Len(ls) /\ SubSeq(ls, 1, Len(body)) = body

-----------------------------------------------------------------------------
(* C13, C14: wrapping and justification of a text to lines *)

SpaceWords(s) == SelectSeq(SplitOn(Map(LAMBDA x : IF x \in WrapSpace THEN SP ELSE x, s), SP),
                           LAMBDA w : w # <<>>)
NoSpace(s) == Drop(s, WrapSpace)

\* lines: what the text has been wrapped to
SameWords(s, lines) == NoSpace(Flat(lines)) = NoSpace(s)
FitOk(lines, width, o) ==
  \A k \in DOMAIN lines :
     LET ind == IF k = 1 THEN o.initial_indent ELSE o.subsequent_indent
         word == Strip(lines[k])
     IN \/ VisLen(lines[k]) <= width
        \* one word that must not be broken
        \/ ~o.break_long_words /\ ~Contains1(word, SP)
        \* no room besides the indent: one character at a time
        \/ width <= ind /\ VisLen(word) = 1
IndentOk(lines, o) ==
  \A k \in DOMAIN lines :
    LET ind == IF k = 1 THEN o.initial_indent ELSE o.subsequent_indent
    IN Len(lines[k]) > ind /\ SubSeq(lines[k], 1, ind) = Spaces(ind)
\* Without hyphens: the first word of a line did not fit on the one before
GreedyOk(s, lines, width, o) ==
  LET ws == SpaceWords(s)
  IN \A k \in 1..(Len(lines) - 1) :
       LET nxt == SpaceWords(lines[k+1])
                    here == SpaceWords(lines[k])
             \* the last part of a broken word may be the end of a sentence, too
             gap == IF /\ o.fix_sentence_endings /\ here # <<>>
                       /\ SentenceEnd(here[Len(here)]) \/ ~\E j \in DOMAIN ws : ws[j] = here[Len(here)]
                    THEN 2 ELSE 1
         IN nxt # <<>> => \/ VisLen(lines[k]) + gap + VisLen(nxt[1]) > width
                        \* the middle of a broken word
                        \/ ~\E j \in DOMAIN ws : ws[j] = nxt[1]

\* The lines of a text in brackets
Inside(out) == Map(LAMBDA l : LET t == RStrip(l) IN SubSeq(t, 2, Len(t) - 1), LinesOf(out))
JustifiedOk(plain, lines, how, width) ==
  /\ Len(plain) = Len(lines)
  /\ CASE how = "left"  -> lines = plain
       [] how = "right" -> \A k \in DOMAIN lines :
             lines[k] = Spaces(width - VisLen(plain[k])) \o plain[k]
       [] how = "center" -> \A k \in DOMAIN lines :
             LET pad == Max2(0, width - VisLen(plain[k]))
             IN \E lft \in {pad \div 2, (pad + 1) \div 2} :
                   lines[k] = Spaces(lft) \o plain[k] \o Spaces(pad - lft)
       [] how = "full" -> \A k \in DOMAIN lines :
             IF k = Len(lines) THEN lines[k] = plain[k]
             ELSE LET ind == Len(plain[k]) - Len(LStrip(plain[k]))
                      was == SplitOn(Strip(plain[k]), SP)
                      gap == Len(was) - 1
                      pad == width - VisLen(plain[k])
                  IN IF gap = 0 \/ pad <= 0 THEN lines[k] = plain[k]
                     ELSE lines[k] = Spaces(ind) \o Flat(TLCEval([j \in 1..Len(was) |->
                            IF j = 1 THEN was[1]
                            ELSE Spaces(1 + (pad \div gap) + (IF j - 1 <= pad % gap THEN 1 ELSE 0)) \o was[j]]))
\* The justification of the paragraphs of a configuration, which is in a rule
\* for p; and the configuration that justifies them on the left
JustificationOf(cfg) ==
  LET k == SelectInSeq(cfg.rules, LAMBDA u : "justification" \in DOMAIN u.s)
  IN IF k = 0 THEN "left" ELSE cfg.rules[k].s.justification
LeftJustified(cfg) ==
  [cfg EXCEPT !.rules = Map(LAMBDA u : IF "justification" \in DOMAIN u.s
                                       THEN [u EXCEPT !.s.justification = "left"] ELSE u, @)]

-----------------------------------------------------------------------------
(* C15: boxes *)
\* Does every block start and end a line of its own?
Apart(ps, as) ==
  \A i \in Nodes(ps) :
    (ps.nodes[i].kind # "data" /\ as[i][1].r \in BlockKinds) =>
      LET par == ps.nodes[i].parent
          ks == Kids(ps, par)
          at == SelectInSeq(ks, LAMBDA k : k = i)
          block(k) == ps.nodes[k].kind # "data" /\ as[k][1].r \in BlockKinds
          margin(k, side) == Settle(ps, k, as[k][1].r, as[k][1].s).margin[side]
      IN /\ par = 0 \/ as[par][1].r \in BlockKinds
         /\ at = 1 \/ margin(i, TOP) > 0 \/ (block(ks[at-1]) /\ margin(ks[at-1], BOTTOM) > 0)
         /\ at = Len(ks) \/ margin(i, BOTTOM) > 0 \/ (block(ks[at+1]) /\ margin(ks[at+1], TOP) > 0)
\* Is all text wrapped, with at least one column left for it, whatever the
\* boxes, line prefixes and indents around it take?
RECURSIVE RoomIn(_, _, _, _, _)
RoomIn(ps, as, i, par, in) ==
  LET n == ps.nodes[i]
      a == as[i][1]
      s == Settle(ps, i, a.r, a.s)
      b == BoxFor(a.r, s, par)
      ind(x) == IF x \in DOMAIN s THEN s[x] ELSE 0
      skips == a.r = "Paragraph" /\ s.skip_for_code_or_pre /\ Len(n.ch) = 1
               /\ ps.nodes[n.ch[1]].tag \in {"code", "pre"}
      wraps == /\ a.r \in {"Paragraph", "ListItem", "OLItem", "DefItem"}
               /\ s.justification # "none" /\ s.break_long_words /\ ~skips
  IN IF n.kind = "data" THEN in \/ Blank(n.raw)
     ELSE /\ a.r \notin {"Header", "MdHeader", "DefTerm"}
          /\ n.kind = "link" => in
          /\ a.r \in BlockKinds => InnerWidth(b) - b.tlt > Max2(ind("initial_indent"), ind("subsequent_indent"))
          /\ \A k \in DOMAIN n.ch : RoomIn(ps, as, n.ch[k], b, in \/ wraps)
Room(ps, cfg) == LET as == Assignments(ps, cfg)
                 IN /\ Apart(ps, as)
                    /\ \A k \in DOMAIN ps.roots : RoomIn(ps, as, ps.roots[k], BoxOf(cfg), FALSE)
NoWider(out, w) == \A k \in DOMAIN LinesOf(out) : VisLen(LinesOf(out)[k]) <= w

-----------------------------------------------------------------------------
(* C17: preformatted text *)
\* Does something between the node and the root lay its content out anew?
RECURSIVE LaidOut(_, _, _)
LaidOut(ps, as, i) ==
  IF i = 0 THEN FALSE
  ELSE \/ as[i][1].r \in {"ListItem", "OLItem", "DefItem", "Header", "MdHeader", "DefTerm"}
       \/ /\ as[i][1].r = "Paragraph"
          /\ LET ch == ps.nodes[i].ch
             IN ~(Len(ch) = 1 /\ ps.nodes[ch[1]].tag \in {"pre", "code"})
       \/ LaidOut(ps, as, ps.nodes[i].parent)
\* The pieces of the preformatted texts: [t: characters of one line, nl: is
\* there a line break before it]
PrePieces(ps, cfg) ==
  LET as == Assignments(ps, cfg)
  IN Flat(Map(LAMBDA i :
        LET n == ps.nodes[i]
        IN IF n.kind # "data" \/ ~n.pre \/ Hidden(ps, as, n.parent) \/ LaidOut(ps, as, n.parent) THEN <<>>
           ELSE LET x == IF InCaps(ps, as, n.parent) THEN Upper(n.raw) ELSE n.raw
                IN SelectSeq(MapI(LAMBDA k, l : [t |-> l, nl |-> k > 1], SplitOn(x, NL)),
                             LAMBDA y : ~Blank(y.t)),
        InPreorder(ps)))
RECURSIVE FindFrom(_, _, _)
FindFrom(out, t, i) == IF i + Len(t) - 1 > Len(out) THEN 0
                       ELSE IF SubSeq(out, i, i + Len(t) - 1) = t THEN i ELSE FindFrom(out, t, i + 1)
\* Every piece is in the output as it is, in order, and on a line of its own if
\* there is a line break before it.
RECURSIVE InOrder(_, _, _, _)
InOrder(ps, k, out, i) ==
  IF k > Len(ps) THEN TRUE
  ELSE LET from == IF ps[k].nl /\ k > 1 THEN FindFrom(out, <<NL>>, i) ELSE i
           at == IF from = 0 THEN 0 ELSE FindFrom(out, ps[k].t, from)
       IN at > 0 /\ InOrder(ps, k + 1, out, at + Len(ps[k].t))
\* Whitespace at the end of lines may have been removed.
Verbatim(ps, cfg, out) ==
  LET pieces == PrePieces(ps, cfg)
  IN InOrder(IF cfg.optimise THEN Map(LAMBDA y : [y EXCEPT !.t = RStrip(@)], pieces) ELSE pieces, 1, out, 1)

-----------------------------------------------------------------------------
(* C18: whitespace *)
\* No two spaces next to each other within the text of a line, no tabs
Collapsed(out) == \A k \in DOMAIN LinesOf(out) :
                    LET t == Strip(LinesOf(out)[k])
                    IN ~Contains1(t, TAB) /\ ~HasSub(t, <<SP, SP>>)

-----------------------------------------------------------------------------
(* C21: styling *)
PenClear(out) == Terminal(out).pen = Pen0 /\ BrokenEscapes(out) = 0

\* The pen of every letter of the text, by the elements around it: the outer
\* ones come first.
RECURSIVE PenOf(_, _, _)
PenOf(ps, as, i) ==
  IF i = 0 THEN Pen0
  ELSE LET p == PenOf(ps, as, ps.nodes[i].parent)
       IN IF as[i][1].r # "Ansi" THEN p
          ELSE FoldLeft(LAMBDA acc, x : PenApply(acc, SgrParams(x[1], <<1, Len(x[1])>>)),
                        p, AnsiOn(Settle(ps, i, "Ansi", as[i][1].s)))
PensWanted(ps, cfg) ==
  LET as == Assignments(ps, cfg)
  IN Flat(Map(LAMBDA i : LET n == ps.nodes[i] IN
                IF n.kind # "data" \/ Hidden(ps, as, n.parent) THEN <<>>
                ELSE LET pen == TLCEval(PenOf(ps, as, n.parent))
                         t == Keep(IF InCaps(ps, as, n.parent) THEN Upper(n.raw) ELSE n.raw, Letters)
                     IN Map(LAMBDA x : [c |-> x, p |-> pen], t),
              InPreorder(ps)))
PensShown(out) == SelectSeq(Terminal(out).cells, LAMBDA x : x.c \in Letters)
PensOk(ps, cfg, out) == PensShown(out) = PensWanted(ps, cfg)

\* The configuration without any styling
StyleKeys == SeqSet(Effects) \cup {"font", "foreground_colour", "background_colour", "normalise"}
Plain(u) == IF u.r # "Ansi" THEN u
            ELSE [u EXCEPT !.r = "Inline",
                           !.s = [x \in DOMAIN u.s \ StyleKeys |-> u.s[x]]]
Unstyled(cfg) == [cfg EXCEPT !.rules = Map(Plain, @), !.xrules = Map(Plain, @), !.dflt = Plain(@)]

-----------------------------------------------------------------------------
(* C22: optimisation *)
OptimisedOk(raw, opt) ==
  LET r == LinesOf(raw) o == LinesOf(opt)
  IN /\ Len(r) = Len(o)
     /\ \A k \in DOMAIN r : /\ HasPrefix(r[k], o[k])
                            /\ Blank(SubSeq(r[k], Len(o[k]) + 1, Len(r[k])))
                            /\ o[k] = RStrip(o[k])
=============================================================================
