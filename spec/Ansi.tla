-------------------------------- MODULE Ansi --------------------------------
(***************************************************************************)
(* ANSI SGR escape sequences: which parts of a text are invisible, what the *)
(* renderers emit, and what a terminal shows for it.                        *)
(***************************************************************************)
EXTENDS Text

SgrChars == Digits \cup {59}

\* The last position of the escape sequence that starts at position i, or 0
EscEnd(s, i) ==
  IF i + 2 > Len(s) THEN 0
  ELSE IF s[i] # ESC \/ s[i+1] # 91 THEN 0
  ELSE LET RECURSIVE scan(_)
           scan(j) == IF j > Len(s) THEN 0
                      ELSE IF s[j] \in SgrChars THEN scan(j + 1)
                      ELSE IF s[j] = 109 THEN j ELSE 0
       IN scan(i + 2)

\* <<start, end>> of every escape sequence, in order
EscSpans(s) ==
  IF ~Contains1(s, ESC) THEN <<>>
  ELSE LET starts == SelectSeq(Where(s, LAMBDA c : c = ESC), LAMBDA i : EscEnd(s, i) > 0)
       IN Map(LAMBDA i : <<i, EscEnd(s, i)>>, starts)

\* The text without its escape sequences
Visible(s) ==
  IF ~Contains1(s, ESC) THEN s
  ELSE LET sp == EscSpans(s)
           n  == Len(sp)
       IN Flat(TLCEval([k \in 1..(n + 1) |->
             SubSeq(s, IF k = 1 THEN 1 ELSE sp[k-1][2] + 1,
                       IF k = n + 1 THEN Len(s) ELSE sp[k][1] - 1)]))
VisLen(s) == IF Contains1(s, ESC) THEN Len(Visible(s)) ELSE Len(s)

\* Without the whitespace around what is visible
VisStrip(s) ==
  IF ~Contains1(s, ESC) THEN Strip(s)
  ELSE LET sp == EscSpans(s)
           hidden(i) == \E k \in DOMAIN sp : i >= sp[k][1] /\ i <= sp[k][2]
           seen == Where(s, LAMBDA c : c \notin SpaceSet)
           ink  == SelectSeq(seen, LAMBDA i : ~hidden(i))
           a == IF ink = <<>> THEN Len(s) + 1 ELSE ink[1]
           b == IF ink = <<>> THEN Len(s) ELSE ink[Len(ink)]
       IN Drop(SubSeq(s, 1, a - 1), SpaceSet) \o SubSeq(s, a, b) \o Drop(SubSeq(s, b + 1, Len(s)), SpaceSet)

\* Escape sequences behind the last line end do not make another line.
VisLines(s) ==
  LET ls == SplitLines(s)
      n  == Len(ls)
  IN IF n > 1 /\ s[Len(s)] \notin LineEnds /\ VisLen(ls[n]) = 0
     THEN Append(SubSeq(ls, 1, n - 2), ls[n-1] \o ls[n]) ELSE ls

\* Apply F to the visible parts only
MapVisible(F(_), s) ==
  IF ~Contains1(s, ESC) THEN F(s)
  ELSE LET sp == EscSpans(s)
           n  == Len(sp)
       IN Flat(TLCEval([k \in 1..(n + 1) |->
             F(SubSeq(s, IF k = 1 THEN 1 ELSE sp[k-1][2] + 1,
                         IF k = n + 1 THEN Len(s) ELSE sp[k][1] - 1))
             \o (IF k <= n THEN SubSeq(s, sp[k][1], sp[k][2]) ELSE <<>>)]))

-----------------------------------------------------------------------------
\* What the renderers emit

Sgr(t) == <<ESC, 91>> \o t \o <<109>>

Effects == <<"bold", "faint", "italic", "fraktur", "underline", "slow_blink",
             "rapid_blink", "invert", "conceal", "crossed_out", "framed",
             "encircled", "overlined">>
EffectOn == [bold |-> 1, faint |-> 2, italic |-> 3, fraktur |-> 20, underline |-> 4,
             slow_blink |-> 5, rapid_blink |-> 6, invert |-> 7, conceal |-> 8,
             crossed_out |-> 9, framed |-> 51, encircled |-> 52, overlined |-> 53]
EffectOff == [bold |-> 22, faint |-> 22, italic |-> 23, fraktur |-> 23, underline |-> 24,
              slow_blink |-> 25, rapid_blink |-> 25, invert |-> 27, conceal |-> 28,
              crossed_out |-> 29, framed |-> 54, encircled |-> 54, overlined |-> 55]
ColourNames == [black |-> 30, red |-> 31, green |-> 32, yellow |-> 33, blue |-> 34,
                magenta |-> 35, cyan |-> 36, white |-> 37, bright_black |-> 90,
                bright_red |-> 91, bright_green |-> 92, bright_yellow |-> 93,
                bright_blue |-> 94, bright_magenta |-> 95, bright_cyan |-> 96,
                bright_white |-> 97]

\* A colour is [k |-> "none"], [k |-> "name", v |-> name], [k |-> "int", v |-> 0..255]
\* or [k |-> "rgb"/"hex", v |-> <<r, g, b>>]
ColourCode(c, bg) ==
  LET ctl == IF bg THEN 48 ELSE 38
  IN CASE c.k = "name" -> IntText(ColourNames[c.v] + (IF bg THEN 10 ELSE 0))
       [] c.k = "int"  -> IntText(ctl) \o <<59, 53, 59>> \o IntText(c.v)
       [] OTHER        -> IntText(ctl) \o <<59, 50, 59>> \o IntText(c.v[1]) \o <<59>>
                            \o IntText(c.v[2]) \o <<59>> \o IntText(c.v[3])

\* The primary font is selected in a way that is not how another font ends.
FontCode(f) == IF f = 0 THEN <<49, 48, 59, 49, 48>> ELSE IntText(f + 10)

\* s: the settings of the element
\* Each is <<the sequence that switches it on, what may switch it off>>.
AnsiOn(s) ==
  Flat(Map(LAMBDA e : IF s[e] THEN << <<Sgr(IntText(EffectOn[e])), EffectOff[e]>> >> ELSE <<>>, Effects))
  \o (IF s.font < 0 THEN <<>> ELSE << <<Sgr(FontCode(s.font)), 10>> >>)
  \o (IF s.foreground_colour.k = "none" THEN <<>> ELSE << <<Sgr(ColourCode(s.foreground_colour, FALSE)), 39>> >>)
  \o (IF s.background_colour.k = "none" THEN <<>> ELSE << <<Sgr(ColourCode(s.background_colour, TRUE)), 49>> >>)
AnsiEnable(s) == Flat(Map(LAMBDA x : x[1], AnsiOn(s)))
\* What has been switched off within the content is switched on again.
AnsiRestore(s, t) ==
  IF ~Contains1(t, ESC) THEN t
  ELSE LET on == AnsiOn(s)
           sp == EscSpans(t)
           n  == Len(sp)
           again(q) == Flat(Map(LAMBDA x : IF q \in {Sgr(<<>>), Sgr(<<48>>), Sgr(IntText(x[2]))} THEN x[1] ELSE <<>>, on))
       IN Flat(TLCEval([k \in 1..(n + 1) |->
             (IF k = 1 THEN <<>> ELSE again(SubSeq(t, sp[k-1][1], sp[k-1][2])))
             \o SubSeq(t, IF k = 1 THEN 1 ELSE sp[k-1][2] + 1, IF k = n + 1 THEN Len(t) ELSE sp[k][2])]))
AnsiDisable(s) ==
  IF s.normalise THEN Sgr(<<48>>)
  ELSE Flat(Map(LAMBDA e : IF s[e] THEN Sgr(IntText(EffectOff[e])) ELSE <<>>, Effects))
       \o (IF s.font < 0 THEN <<>> ELSE Sgr(<<49, 48>>))
       \o (IF s.foreground_colour.k = "none" THEN <<>> ELSE Sgr(<<51, 57>>))
       \o (IF s.background_colour.k = "none" THEN <<>> ELSE Sgr(<<52, 57>>))

-----------------------------------------------------------------------------
\* What a terminal shows: the state of its pen after an escape sequence

Pen0 == [fg |-> <<>>, bg |-> <<>>, font |-> 0, intensity |-> {}, italic |-> {}, underline |-> FALSE,
         blink |-> {}, invert |-> FALSE, conceal |-> FALSE, crossed |-> FALSE,
         frame |-> {}, over |-> FALSE]

RECURSIVE TextNat(_)
TextNat(t) == IF t = <<>> THEN 0 ELSE TextNat(SubSeq(t, 1, Len(t) - 1)) * 10 + (t[Len(t)] - 48)

\* params: a sequence of numbers
RECURSIVE PenApply(_, _)
PenApply(pen, ps) ==
  IF ps = <<>> THEN pen
  ELSE LET p == ps[1]
           rest == Tail(ps)
       IN IF p \in {38, 48} /\ Len(ps) >= 3 /\ ps[2] = 5
          THEN PenApply([pen EXCEPT ![IF p = 38 THEN "fg" ELSE "bg"] = <<5, ps[3]>>],
                        SubSeq(ps, 4, Len(ps)))
          ELSE IF p \in {38, 48} /\ Len(ps) >= 5 /\ ps[2] = 2
          THEN PenApply([pen EXCEPT ![IF p = 38 THEN "fg" ELSE "bg"] = <<2, ps[3], ps[4], ps[5]>>],
                        SubSeq(ps, 6, Len(ps)))
          ELSE PenApply(
            CASE p = 0  -> Pen0
              [] p = 1  -> [pen EXCEPT !.intensity = @ \cup {1}]
              [] p = 2  -> [pen EXCEPT !.intensity = @ \cup {2}]
              [] p = 3  -> [pen EXCEPT !.italic = @ \cup {3}]
              [] p = 20 -> [pen EXCEPT !.italic = @ \cup {20}]
              [] p = 4  -> [pen EXCEPT !.underline = TRUE]
              [] p = 5  -> [pen EXCEPT !.blink = @ \cup {5}]
              [] p = 6  -> [pen EXCEPT !.blink = @ \cup {6}]
              [] p = 7  -> [pen EXCEPT !.invert = TRUE]
              [] p = 8  -> [pen EXCEPT !.conceal = TRUE]
              [] p = 9  -> [pen EXCEPT !.crossed = TRUE]
              [] p = 51 -> [pen EXCEPT !.frame = @ \cup {51}]
              [] p = 52 -> [pen EXCEPT !.frame = @ \cup {52}]
              [] p = 53 -> [pen EXCEPT !.over = TRUE]
              [] p = 22 -> [pen EXCEPT !.intensity = {}]
              [] p = 23 -> [pen EXCEPT !.italic = {}]
              [] p = 24 -> [pen EXCEPT !.underline = FALSE]
              [] p = 25 -> [pen EXCEPT !.blink = {}]
              [] p = 27 -> [pen EXCEPT !.invert = FALSE]
              [] p = 28 -> [pen EXCEPT !.conceal = FALSE]
              [] p = 29 -> [pen EXCEPT !.crossed = FALSE]
              [] p = 54 -> [pen EXCEPT !.frame = {}]
              [] p = 55 -> [pen EXCEPT !.over = FALSE]
              [] p \in 10..19 -> [pen EXCEPT !.font = p - 10]
              [] p \in (30..37) \cup (90..97) -> [pen EXCEPT !.fg = <<1, p>>]
              [] p \in (40..47) \cup (100..107) -> [pen EXCEPT !.bg = <<1, p - 10>>]
              [] p = 39 -> [pen EXCEPT !.fg = <<>>]
              [] p = 49 -> [pen EXCEPT !.bg = <<>>]
              [] OTHER -> pen,
            rest)

SgrParams(s, span) == Map(TextNat, SplitOn(SubSeq(s, span[1] + 2, span[2] - 1), 59))

\* The visible characters of a text, each with the pen it is shown in:
\* a sequence of [c |-> code point, p |-> pen], and the pen left at the end.
Terminal(s) ==
  LET sp == EscSpans(s)
      n  == Len(sp)
      pens == FoldLeft(LAMBDA acc, x : Append(acc, PenApply(acc[Len(acc)], SgrParams(s, x))),
                       <<Pen0>>, sp)
      piece(k) == SubSeq(s, IF k = 1 THEN 1 ELSE sp[k-1][2] + 1,
                            IF k = n + 1 THEN Len(s) ELSE sp[k][1] - 1)
  IN [cells |-> Flat(TLCEval([k \in 1..(n + 1) |->
                       Map(LAMBDA c : [c |-> c, p |-> pens[k]], piece(k))])),
      pen |-> pens[n + 1]]

\* The number of characters that pretend to start an escape sequence, but do not
BrokenEscapes(s) == Len(SelectSeq(Where(s, LAMBDA c : c = ESC), LAMBDA i : EscEnd(s, i) = 0))
=============================================================================
