-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text is a sequence of Unicode code points.  This module holds the string *)
(* operations of the rendering pipeline, in the meaning that the Python      *)
(* string methods give them.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

ESC == 27
TAB == 9
NL  == 10
SP  == 32

\* str.isspace / str.strip / str.split()
SpaceSet == (9..13) \cup (28..31) \cup {32, 133, 160, 5760} \cup (8192..8202)
              \cup {8232, 8233, 8239, 8287, 12288}
\* str.splitlines
LineEnds == (10..13) \cup (28..30) \cup {133, 8232, 8233}
\* The whitespace that the text wrapping knows: \t \n \v \f \r and space
WrapSpace == (9..13) \cup {32}

Digits  == 48..57
Lower   == 97..122
UpperAZ == 65..90
\* Letters: ASCII, Latin-1, Latin extended, and the CJK ideographs
Letters == (65..90) \cup (97..122) \cup {170, 181, 186}
             \cup ((192..687) \ {215, 247}) \cup (19968..40959)
WordChars == Letters \cup Digits \cup {95}

Force(s) == TLCEval(s)
Map(F(_), s) == TLCEval([i \in DOMAIN s |-> F(s[i])])
MapI(F(_, _), s) == TLCEval([i \in DOMAIN s |-> F(i, s[i])])
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Rep(t, n) == IF n <= 0 THEN <<>>
             ELSE IF Len(t) = 1 THEN TLCEval([i \in 1..n |-> t[1]])
             ELSE TLCEval([i \in 1..(n * Len(t)) |-> t[((i - 1) % Len(t)) + 1]])
Spaces(n) == IF n <= 0 THEN <<>> ELSE TLCEval([i \in 1..n |-> SP])
Newlines(n) == IF n <= 0 THEN <<>> ELSE TLCEval([i \in 1..n |-> NL])

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumFrom(s, i + 1)
Sum(s) == SumFrom(s, 1)

\* The positions at which P holds
Where(s, P(_)) == SelectSeq(TLCEval([i \in 1..Len(s) |-> i]), LAMBDA i : P(s[i]))

Contains1(s, c) == \E i \in DOMAIN s : s[i] = c
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasSub(s, p) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p
CountSub(s, p) == Len(SelectSeq(TLCEval([i \in 1..(Len(s) - Len(p) + 1) |-> i]),
                                LAMBDA i : SubSeq(s, i, i + Len(p) - 1) = p))

SplitOn(s, c) ==
  LET ps == Where(s, LAMBDA x : x = c)
      n  == Len(ps)
  IN TLCEval([k \in 1..(n + 1) |->
        SubSeq(s, IF k = 1 THEN 1 ELSE ps[k-1] + 1,
                  IF k = n + 1 THEN Len(s) ELSE ps[k] - 1)])

Join(parts, sep) ==
  IF parts = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, parts[1], Tail(parts))

\* First and last position of something that is not in the set W (0 if none)
FirstNot(s, W) == SelectInSeq(s, LAMBDA x : x \notin W)
LastNot(s, W)  == SelectLastInSeq(s, LAMBDA x : x \notin W)

LStripW(s, W) == LET f == FirstNot(s, W) IN IF f = 0 THEN <<>> ELSE SubSeq(s, f, Len(s))
RStripW(s, W) == LET l == LastNot(s, W) IN IF l = 0 THEN <<>> ELSE SubSeq(s, 1, l)
StripW(s, W)  == LET f == FirstNot(s, W)
                 IN IF f = 0 THEN <<>> ELSE SubSeq(s, f, LastNot(s, W))
LStrip(s) == LStripW(s, SpaceSet)
RStrip(s) == RStripW(s, SpaceSet)
Strip(s)  == StripW(s, SpaceSet)
Blank(s)  == FirstNot(s, SpaceSet) = 0

\* str.split(): the words
Words(s) == SelectSeq(SplitOn(Map(LAMBDA c : IF c \in SpaceSet THEN SP ELSE c, s), SP),
                      LAMBDA w : w # <<>>)

\* Words in attributes are separated by ASCII whitespace only
HtmlSpace == {32, 9, 10, 12, 13}
HtmlWords(s) == SelectSeq(SplitOn(Map(LAMBDA c : IF c \in HtmlSpace THEN SP ELSE c, s), SP),
                          LAMBDA w : w # <<>>)

\* str.splitlines(keepends=True).  \r\n counts as one line end.
SplitLinesKeep(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET ends == SelectSeq(TLCEval([i \in 1..Len(s) |-> i]),
                     LAMBDA i : /\ s[i] \in LineEnds
                                /\ ~(s[i] = 13 /\ i < Len(s) /\ s[i+1] = 10))
           n == Len(ends)
           tail == n = 0 \/ ends[n] < Len(s)
       IN TLCEval([k \in 1..(IF tail THEN n + 1 ELSE n) |->
             SubSeq(s, IF k = 1 THEN 1 ELSE ends[k-1] + 1,
                       IF k = n + 1 THEN Len(s) ELSE ends[k])])
ChopEnd(l) == RStripW(l, LineEnds)
\* A line of splitlines(True) holds line ends at its end only, and only one.
SplitLines(s) == Map(ChopEnd, SplitLinesKeep(s))

UpperOf(c) == IF c \in Lower THEN c - 32
              ELSE IF c \in (224..254) \ {247} THEN c - 32
              ELSE IF c = 255 THEN 376
              ELSE c
\* str.upper(): the sharp s becomes two letters
Upper(s) == IF Contains1(s, 223)
            THEN Flat(Map(LAMBDA c : IF c = 223 THEN <<83, 83>> ELSE <<UpperOf(c)>>, s))
            ELSE Map(UpperOf, s)

RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE NatText(n \div 10) \o <<48 + (n % 10)>>
IntText(n) == IF n < 0 THEN <<45>> \o NatText(-n) ELSE NatText(n)

\* str.center and str.rjust, for a known number of missing columns
CenterBy(s, pad, width) ==
  IF pad <= 0 THEN s
  ELSE LET left == (pad \div 2) + (IF pad % 2 = 1 /\ width % 2 = 1 THEN 1 ELSE 0)
       IN Spaces(left) \o s \o Spaces(pad - left)

\* Keep only the code points in C
Keep(s, C) == SelectSeq(s, LAMBDA c : c \in C)
Drop(s, C) == SelectSeq(s, LAMBDA c : c \notin C)
=============================================================================
