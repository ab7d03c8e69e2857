--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Explores all documents of a family up to a number of events, checks the   *)
(* properties on the text they become, and prints them as behaviours for the *)
(* implementation.                                                          *)
(***************************************************************************)
EXTENDS Families, Json, IOUtils

F == Family(IOEnv.FAMILY)
MaxLen == atoi(IOEnv.DEPTH)
Alpha == TLCEval(F.alpha)
Cfgs == TLCEval(F.cfgs)
Name == IOEnv.FAMILY

ASSUME PrintT(<<"ALPHABET", ToJson([alpha |-> Alpha, cfgs |-> Cfgs, pre |-> F.pre])>>)

VARIABLES mcCfg, mcHist, mcDoc
vars == <<mcCfg, mcHist, mcDoc>>

Init == /\ mcCfg \in 1..Len(Cfgs)
        /\ mcHist = <<>>
        /\ mcDoc = Steps(EmptyDoc, Cfgs[mcCfg], F.pre)

Possible(e) ==
  F.wf => CASE e.t = "end" -> Len(mcDoc.stack) > Len(F.pre) /\ mcDoc.nodes[Top(mcDoc)].tag = e.tag
            [] OTHER -> TRUE

Next == /\ Len(mcHist) < MaxLen
        /\ \E i \in 1..Len(Alpha) :
             /\ Possible(Alpha[i])
             /\ mcHist' = Append(mcHist, i)
             /\ mcDoc' = Step(mcDoc, Cfgs[mcCfg], Alpha[i])
        /\ mcCfg' = mcCfg

\* In a well-formed family, only complete documents are of interest.
Complete == ~F.wf \/ Len(mcDoc.stack) <= Len(F.pre)

Cf == Cfgs[mcCfg]
Doc == CloseDoc(mcDoc)
Out == DocText(Doc, Cf)

LettersAndBraces == Letters \cup {123, 125, 37, 92}

\* The text of the one paragraph, and how it is to be wrapped
ParaText(ps) == Strip(Flat(Map(LAMBDA k : IF ps.nodes[k].kind = "data" THEN Shown(ps.nodes[k]) ELSE <<>>,
                               Kids(ps, 1))))
ParaOptions(cfg) == WrapArgs(Over(ClassSettings("Paragraph"), cfg.rules[1].s))

Inv ==
  /\ Structure(mcDoc)
  /\ RefsOk(mcDoc, Cf)
  /\ PendingOk(mcDoc, Cf)
  /\ Complete =>
     LET out == TLCEval(Out)
     IN CASE Name \in {"nest", "void"} -> Balanced(out)
          [] Name = "cascade" -> Balanced(out) /\ CascadeLaws(Doc, Cf)
          [] Name = "text"   -> Conserved(Doc, Cf, out, LettersAndBraces)
          [] Name = "links"  -> LinkNumbers(Doc, Cf, out)
          [] Name = "gopher" -> GopherLines(Doc, out)
          [] Name = "space"  -> Collapsed(out) /\ Conserved(Doc, Cf, out, Letters)
          [] Name = "inline" -> Conserved(Doc, Cf, out, Letters)
          [] Name = "pre"    -> Verbatim(Doc, Cf, out) /\ Conserved(Doc, Cf, out, Letters)
          [] Name \in {"list", "defs", "quote"} -> Conserved(Doc, Cf, out, Letters)
          [] Name = "optimise" ->
               /\ OptimisedOk(RawDoc(Doc, Cf), DocText(Doc, [Cf EXCEPT !.optimise = TRUE]))
               /\ DocText(Doc, [Cf EXCEPT !.optimise = FALSE]) = RawDoc(Doc, Cf)
          [] Name \in {"select", "siblings"} -> Balanced(out) /\ SelectorLaws(Doc)
          [] Name = "wrap" ->
               LET lines == Inside(out)
                   text == ParaText(Doc)
                   o == ParaOptions(Cf)
               IN text # <<>> =>
                  /\ SameWords(text, lines)
                  /\ FitOk(lines, Cf.width - 2, o)
                  /\ IndentOk(lines, o)
                  /\ ~Contains1(text, HYPHEN) => GreedyOk(text, lines, Cf.width - 2, o)
          [] Name = "justify" ->
               ParaText(Doc) # <<>> =>
               JustifiedOk(Inside(DocText(Doc, LeftJustified(Cf))), Inside(out), JustificationOf(Cf), Cf.width - 2)
          [] Name = "boxes"  -> /\ Conserved(Doc, Cf, out, Letters)
                                /\ Room(Doc, Cf) => NoWider(out, Cf.width - Cf.margin[RIGHT])
          [] Name = "heading" -> Conserved(Doc, Cf, out, Letters)
          [] Name = "ansi"   -> PenClear(out) /\ Conserved(Doc, Cf, out, Letters)
          [] OTHER -> TRUE

\* Texts may arrive in pieces.
ChunkInv == \A i \in 1..Len(Alpha) : Alpha[i].t = "data" =>
              LET d == Alpha[i].d
              IN \A n \in 1..(Len(d) - 1) :
                   Data(Data(mcDoc, SubSeq(d, 1, n)), SubSeq(d, n + 1, Len(d))) = Data(mcDoc, d)

Emit == (mcHist # <<>> /\ Complete) => PrintT(<<"CASE", mcCfg, mcHist>>)
=============================================================================
