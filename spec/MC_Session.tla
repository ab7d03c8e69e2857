----------------------------- MODULE MC_Session ------------------------------
(***************************************************************************)
(* All histories of two parsers up to a length: feeding, closing, resetting  *)
(* in any order.                                                            *)
(***************************************************************************)
EXTENDS Families, Json, IOUtils

MaxLen == atoi(IOEnv.DEPTH)
Cfgs == TLCEval(<< Cfg("footer", "footer", 20),
   [With(Cfg("after_block", "inline", 16), <<Ru(El("em"), "Em", [capitalized |-> TRUE])>>) EXCEPT !.margin = <<1, 0, 0, 1>>] >>)
Feeds == << <<S("p"), D("ab  c")>>, <<D("d "), S("em"), D("e")>>, <<E("em"), E("p")>>,
            <<S("pre"), D("x  y")>>, <<LNK("/r"), D("ln"), E("a")>>, <<E("pre"), S("ol"), S("li"), D("one")>> >>
Alpha == TLCEval([n \in 1..16 |->
   LET p == ((n - 1) \div 8) + 1
       k == ((n - 1) % 8) + 1
   IN IF k = 7 THEN [op |-> "close", p |-> p]
      ELSE IF k = 8 THEN [op |-> "reset", p |-> p]
      ELSE [op |-> "feed", p |-> p, es |-> Feeds[k]]])
ASSUME PrintT(<<"ALPHABET", ToJson([alpha |-> Alpha, cfgs |-> Cfgs, pre |-> <<>>])>>)

VARIABLES seHist, seParsers, seOk
vars == <<seHist, seParsers, seOk>>

New == <<NewParser(Cfgs[1]), NewParser(Cfgs[2])>>
\* An operation on a parser
Do(s, o) == CASE o.op = "feed" -> FeedParser(s, o.es)
              [] o.op = "close" -> CloseParser(s)
              [] o.op = "reset" -> ResetParser(s)
Init == seHist = <<>> /\ seParsers = New /\ seOk = TRUE
Next == /\ Len(seHist) < MaxLen
        /\ \E i \in 1..Len(Alpha) :
             LET o == Alpha[i]
                 t == Do(seParsers[o.p], o)
             IN /\ seHist' = Append(seHist, i)
                /\ seParsers' = [seParsers EXCEPT ![o.p] = t]
                \* the text changes only by closing and resetting
                /\ seOk' = (o.op = "feed" => t.out = seParsers[o.p].out)

\* What one parser has been told, on its own
Alone(p) == SelectSeq(seHist, LAMBDA i : Alpha[i].p = p)
\* ... since the last time it was reset
Since(p) == LET h == Alone(p)
                k == SelectLastInSeq(h, LAMBDA i : Alpha[i].op = "reset")
            IN SubSeq(h, k + 1, Len(h))
Inv ==
  /\ seOk
  /\ \A p \in 1..2 :
       \* alone, and from the start
       /\ seParsers[p] = FoldLeft(LAMBDA s, i : Do(s, Alpha[i]), New[p], Alone(p))
       /\ seParsers[p] = FoldLeft(LAMBDA s, i : Do(s, Alpha[i]), New[p], Since(p))
       /\ Structure(seParsers[p].ps)
       \* closing again
       /\ LET c == CloseParser(seParsers[p]) IN CloseParser(c) = c
       \* the text is that of the document, if nothing came after closing
       /\ (Alone(p) # <<>> /\ Alpha[Alone(p)[Len(Alone(p))]].op = "close")
            => seParsers[p].out = DocText(seParsers[p].ps, Cfgs[p])
ChunkInv == TRUE
\* Only histories that end with closing are of interest.
Emit == (seHist # <<>> /\ Alpha[seHist[Len(seHist)]].op = "close") => PrintT(<<"CASE", 1, seHist>>)
=============================================================================
