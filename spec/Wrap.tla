-------------------------------- MODULE Wrap --------------------------------
(***************************************************************************)
(* Wrapping and justification of a paragraph of text: how it is cut into    *)
(* chunks, how the chunks are put on lines of a given visible width, and     *)
(* how the lines are then aligned.                                          *)
(***************************************************************************)
EXTENDS Ansi

WrapDefaults ==
  [initial_indent |-> 0, subsequent_indent |-> 0, fix_sentence_endings |-> FALSE,
   break_long_words |-> TRUE, break_on_hyphens |-> TRUE, drop_whitespace |-> TRUE,
   replace_whitespace |-> TRUE, expand_tabs |-> TRUE, tabsize |-> 8]

HYPHEN == 45
WordPunct == WordChars \cup {33, 34, 39, 38, 46, 44, 63}

ExpandTabs(s, size) ==
  IF ~Contains1(s, TAB) THEN s
  ELSE FoldLeft(LAMBDA acc, c :
         IF c = TAB
         THEN LET n == IF size > 0 THEN size - (acc[2] % size) ELSE 0
              IN <<acc[1] \o Spaces(n), acc[2] + n>>
         ELSE <<Append(acc[1], c), IF c \in {10, 13} THEN 0 ELSE acc[2] + 1>>,
         <<<<>>, 0>>, s)[1]

Munge(s, o) ==
  LET e == IF o.expand_tabs THEN ExpandTabs(s, o.tabsize) ELSE s
  IN IF o.replace_whitespace THEN Map(LAMBDA c : IF c \in WrapSpace THEN SP ELSE c, e) ELSE e

\* The end of the run of characters of W that starts at i (i - 1 if there is none)
RunEnd(s, i, W) ==
  LET RECURSIVE go(_)
      go(j) == IF j > Len(s) \/ s[j] \notin W THEN j - 1 ELSE go(j + 1)
  IN go(i)

At(s, i, W) == i >= 1 /\ i <= Len(s) /\ s[i] \in W

\* Two or more hyphens from i on, followed by a word character
EmDash(s, i) == LET e == RunEnd(s, i, {HYPHEN}) IN e - i + 1 >= 2 /\ At(s, e + 1, WordChars)

\* What counts as a letter next to a hyphen
WordLetters == Letters \cup {95}
\* A hyphen at i within a word: a break is possible after it
SoftHyphen(s, i) ==
  /\ At(s, i, {HYPHEN})
  /\ \/ At(s, i - 2, WordLetters) /\ At(s, i - 1, WordLetters)
     \/ At(s, i - 3, WordLetters) /\ At(s, i - 2, {HYPHEN}) /\ At(s, i - 1, WordLetters)
  /\ At(s, i + 1, WordLetters)
  /\ \/ At(s, i + 2, WordLetters)
     \/ At(s, i + 2, {HYPHEN}) /\ At(s, i + 3, WordLetters)

\* The end of the chunk that starts at i
ChunkEnd(s, i, hyphens) ==
  IF s[i] \in WrapSpace THEN RunEnd(s, i, WrapSpace)
  ELSE IF ~hyphens THEN
    LET RECURSIVE go(_)
        go(j) == IF j > Len(s) \/ s[j] \in WrapSpace THEN j - 1 ELSE go(j + 1)
    IN go(i)
  ELSE IF At(s, i - 1, WordPunct) /\ s[i] = HYPHEN /\ EmDash(s, i) THEN RunEnd(s, i, {HYPHEN})
  ELSE LET RECURSIVE go(_)
           \* j: the position behind the part of the word that is taken so far
           go(j) == IF j > Len(s) \/ s[j] \in WrapSpace THEN j - 1
                    ELSE IF s[j] = HYPHEN /\ SoftHyphen(s, j) THEN j
                    ELSE IF s[j] = HYPHEN /\ At(s, j - 1, WordPunct) /\ EmDash(s, j) THEN j - 1
                    ELSE go(j + 1)
       IN go(i + 1)

Chunks(s, hyphens) ==
  LET RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(s) THEN acc
                    ELSE LET e == ChunkEnd(s, i, hyphens) IN go(e + 1, Append(acc, SubSeq(s, i, e)))
  IN go(1, <<>>)

\* A lower case letter, a sentence mark, and perhaps a quote, at the end of the chunk
SentenceEnd(c) ==
  LET n == Len(c)
      m == IF n > 0 /\ c[n] \in {34, 39} THEN n - 1 ELSE n
      plain(k) == k >= 2 /\ c[k] \in {46, 33, 63} /\ c[k-1] \in Lower
  IN plain(n) \/ (m # n /\ plain(m))

FixEndings(chunks) ==
  LET RECURSIVE go(_, _)
      go(i, cs) == IF i >= Len(cs) THEN cs
                   ELSE IF cs[i+1] = <<SP>> /\ SentenceEnd(cs[i])
                        THEN go(i + 2, [cs EXCEPT ![i+1] = <<SP, SP>>])
                        ELSE go(i + 1, cs)
  IN go(1, chunks)

\* The number of visible characters of a long word that go on the current line
LongCut(plain, curLen, width, o) ==
  LET left == IF width < 1 THEN 1 ELSE width - curLen
      cand == IF o.break_on_hyphens /\ Len(plain) > left
              THEN SelectLastInSeq(SubSeq(plain, 1, left), LAMBDA c : c = HYPHEN) ELSE 0
  IN IF cand > 1 /\ \E i \in 1..(cand - 1) : plain[i] # HYPHEN THEN cand ELSE left

SpaceChunk(c) == Blank(c)

\* The lines: texts with their indent
WrapChunks(chunks0, width0, o) ==
  LET
    ind(lines) == Spaces(IF lines = <<>> THEN o.initial_indent ELSE o.subsequent_indent)
    RECURSIVE fill(_, _, _, _)
    \* take chunks as long as they fit: <<chunks left, taken, length>>
    fill(cs, cur, len, w) ==
      IF cs = <<>> THEN <<cs, cur, len>>
      ELSE LET l == Len(cs[1])
           IN IF len + l <= w THEN fill(Tail(cs), Append(cur, cs[1]), len + l, w)
              ELSE <<cs, cur, len>>
    RECURSIVE go(_, _)
    go(chunks, lines) ==
      IF chunks = <<>> THEN lines
      ELSE LET
        w  == width0 - Len(ind(lines))
        c1 == IF o.drop_whitespace /\ lines # <<>> /\ SpaceChunk(chunks[1]) THEN Tail(chunks) ELSE chunks
        f  == fill(c1, <<>>, 0, w)
        \* a word that is too long for any line
        long == f[1] # <<>> /\ Len(f[1][1]) > w
        word == f[1][1]
        cut == Min2(LongCut(word, f[3], w, o), Len(word))
        g  == IF ~long THEN <<f[1], f[2]>>
              ELSE IF word = <<>> THEN <<Tail(f[1]), Append(f[2], word)>>
              ELSE IF o.break_long_words
                   THEN <<<<SubSeq(word, cut + 1, Len(word))>> \o Tail(f[1]),
                          Append(f[2], SubSeq(word, 1, cut))>>
              ELSE IF f[2] = <<>> THEN <<Tail(f[1]), <<word>>>>
              ELSE <<f[1], f[2]>>
        cur == IF o.drop_whitespace /\ g[2] # <<>> /\ SpaceChunk(g[2][Len(g[2])])
               THEN SubSeq(g[2], 1, Len(g[2]) - 1) ELSE g[2]
      IN go(g[1], IF cur = <<>> THEN lines ELSE Append(lines, ind(lines) \o Flat(cur)))
  IN go(chunks0, <<>>)

WrapPlain(s, width, o) ==
  LET t == Munge(s, o)
      cs == Chunks(t, o.break_on_hyphens)
  IN WrapChunks(IF o.fix_sentence_endings THEN FixEndings(cs) ELSE cs, width, o)

\* The escape sequences of the text s in the lines of what is visible of it:
\* they stay between the same two characters, at the later one if there is
\* whitespace between it and the earlier one.
PutBack(lines, s) ==
  LET spans == EscSpans(s)
      mark(x) == LET v == Visible(SubSeq(s, 1, x[1] - 1))
                     later == v = <<>> \/ v[Len(v)] \in SpaceSet
                     n == Len(Drop(v, SpaceSet))
                 IN [later |-> later, n |-> IF later THEN n + 1 ELSE n, e |-> SubSeq(s, x[1], x[2])]
      marks == Map(mark, spans)
      those(later, n) == Flat(Map(LAMBDA m : IF m.later = later /\ m.n = n THEN m.e ELSE <<>>, marks))
      counts == TLCEval([k \in DOMAIN lines |-> Len(Drop(Flat(SubSeq(lines, 1, k - 1)), SpaceSet))])
      line(k, l) == Flat(MapI(LAMBDA i, c :
                      IF c \in SpaceSet THEN <<c>>
                      ELSE LET n == counts[k] + Len(Drop(SubSeq(l, 1, i), SpaceSet))
                           IN those(TRUE, n) \o <<c>> \o those(FALSE, n), l))
      all == MapI(line, lines)
      total == Len(Drop(Visible(s), SpaceSet))
  IN IF lines = <<>> THEN <<those(TRUE, 1)>>
     ELSE [all EXCEPT ![Len(all)] = @ \o those(TRUE, total + 1)]

\* Text is wrapped as if there were no escape sequences in it.
Wrap(s, width, o) ==
  IF EscSpans(s) = <<>> THEN WrapPlain(s, width, o)
  ELSE PutBack(TLCEval(WrapPlain(Visible(s), width, o)), s)

-----------------------------------------------------------------------------
\* Alignment

Center(s, width) == IF width = 0 THEN s ELSE CenterBy(s, width - VisLen(s), width)
Right(s, width)  == IF width = 0 THEN s ELSE Spaces(width - VisLen(s)) \o s

FullLine(line, width) ==
  LET ls == LStrip(line)
      indent == Spaces(Len(line) - Len(ls))
      pad == width - VisLen(line)
      ws == SplitOn(RStrip(ls), SP)
      gaps == Len(ws) - 1
      n == pad \div gaps
      r == pad % gaps
  IN IF pad = 0 \/ gaps = 0 THEN line
     ELSE indent \o Flat(TLCEval([k \in 1..Len(ws) |->
            IF k = 1 THEN ws[1] ELSE Spaces(IF k - 1 <= r THEN n + 2 ELSE n + 1) \o ws[k]]))

JustifyLines(lines, how, width) ==
  CASE how = "left"   -> lines
    [] how = "right"  -> Map(LAMBDA l : Right(l, width), lines)
    [] how = "center" -> Map(LAMBDA l : Center(l, width), lines)
    [] how = "full"   -> MapI(LAMBDA i, l : IF i = Len(lines) THEN l ELSE FullLine(l, width), lines)

\* how = "none" leaves the text alone
Justify(s, how, width, o) ==
  IF how = "none" THEN s ELSE Join(JustifyLines(Wrap(s, width, o), how, width), <<NL>>)
=============================================================================
