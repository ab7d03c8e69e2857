------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks recorded executions of the implementation against the             *)
(* specification, one recorded operation per step.  Every case says which   *)
(* clauses its outputs have to satisfy.                                     *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES trCase, trPos, trState, trBad
vars == <<trCase, trPos, trState, trBad>>

\* parsers: by number: [cfg |-> number of the configuration, ps |-> document,
\* out |-> text that it was seen to have]; memo: all texts seen, with what they
\* are the text of
Init == /\ trCase \in 1..Len(Cases)
        /\ trPos = 1
        /\ trState = [parsers |-> <<>>, memo |-> <<>>]
        /\ trBad = <<>>

\* -- what is expected of a text ---------------------------------------------
\* m: [cfg, ps, out], memo: those seen before
Expect(id, x) == PrintT(<<"EXPECT", id, x>>)
Same(a, b) == a = b
OtherCfg(case, x, y) == case.cfgs[x].optimise # case.cfgs[y].optimise
                        /\ [case.cfgs[x] EXCEPT !.optimise = TRUE] = [case.cfgs[y] EXCEPT !.optimise = TRUE]

NoDigits(t) == Drop(t, Digits)

Clause(case, memo, m, x) ==
  LET cfg == case.cfgs[m.cfg]
      doc == DocText(m.ps, cfg)
      others(P(_)) == SelectSeq(memo, LAMBDA y : y.ps = m.ps /\ P(y))
      all(P(_), Q(_)) == \A k \in DOMAIN others(P) : Q(others(P)[k])
  IN CASE x = "exact" -> LET d == TLCEval(doc) IN m.out = d \/ ~Expect(case.id, d)
       [] x = "exact but numbers" ->
            LET d == TLCEval(doc) IN NoDigits(m.out) = NoDigits(d) \/ ~Expect(case.id, d)
       [] x = "same text" ->
            all(LAMBDA y : y.cfg = m.cfg, LAMBDA y : y.out = m.out \/ ~Expect(case.id, y.out))
       [] x = "balanced"  -> Balanced(m.out)
       [] x = "conserved" -> Conserved(m.ps, cfg, m.out, TextChars)
       \* whatever the markers around the text are
       [] x = "all but whitespace" ->
            LET d == TLCEval(doc) IN NoSpace(Visible(m.out)) = NoSpace(Visible(d)) \/ ~Expect(case.id, d)
       [] x = "letters conserved" -> Conserved(m.ps, cfg, m.out, Letters)
       [] x = "link numbers" -> LinkNumbers(m.ps, cfg, m.out)
       [] x = "references" -> LET d == TLCEval(doc)
                              IN /\ RefWords(m.out) = RefWords(d)
                                 /\ EntryNums(m.out) = EntryNums(d)
       [] x = "link lines" -> cfg.fmt = "gophermap" => GopherLines(m.ps, m.out)
       [] x = "link lines after blocks" -> GopherBlockLines(m.ps, cfg, m.out)
       [] x = "descriptions" -> cfg.fmt = "gophermap" =>
            LET w == FieldsOf(doc, 1..1) IN FieldsOf(m.out, 1..1) = w \/ ~Expect(case.id, w)
       [] x = "targets" ->
            LET w == TargetsOf(doc) IN TargetsOf(m.out) = w \/ ~Expect(case.id, w)
       [] x = "text as in text" ->
            all(LAMBDA y : case.cfgs[y.cfg] = [cfg EXCEPT !.fmt = "text"] /\ y.cfg # m.cfg,
                LAMBDA y : GopherBody(m.out, y.out))
       [] x = "width" -> Room(m.ps, cfg) => NoWider(m.out, cfg.width - cfg.margin[RIGHT])
       [] x = "collapsed" -> Collapsed(m.out)
       [] x = "verbatim" -> Verbatim(m.ps, cfg, m.out)
       [] x = "nothing left on" -> PenClear(m.out)
       [] x = "pens" -> PensOk(m.ps, cfg, m.out)
       [] x = "as without styling" ->
            all(LAMBDA y : case.cfgs[y.cfg] = Unstyled(cfg) /\ y.cfg # m.cfg,
                LAMBDA y : Optimised(Visible(m.out)) = Optimised(y.out) \/ ~Expect(case.id, y.out))
       [] x = "optimised" ->
            all(LAMBDA y : OtherCfg(case, y.cfg, m.cfg),
                LAMBDA y : IF cfg.optimise THEN OptimisedOk(y.out, m.out) ELSE OptimisedOk(m.out, y.out))
            /\ (cfg.optimise => \A k \in DOMAIN LinesOf(m.out) : LinesOf(m.out)[k] = RStrip(LinesOf(m.out)[k]))
       [] x = "justified" ->
            all(LAMBDA y : case.cfgs[y.cfg] = LeftJustified(cfg) /\ y.cfg # m.cfg,
                LAMBDA y : JustifiedOk(Inside(y.out), Inside(m.out), JustificationOf(cfg), cfg.width - 2)
                           \/ ~Expect(case.id, y.out))
       [] x = "is text" -> TRUE

Failed(case, memo, m) == {x \in SeqSet(case.cl) : ~Clause(case, memo, m, x)}

\* -- one operation on parsers: <<new state, failed clauses>> ----------------
OpResult(case, s, o) ==
  CASE o.op = "new" ->
         LET cfg == case.cfgs[o.cfg]
         IN IF CfgError(cfg)
            THEN <<s, IF o.res = "ValueError" THEN {} ELSE {"rejected"}>>
            ELSE <<[s EXCEPT !.parsers = (o.p :> [cfg |-> o.cfg, ps |-> EmptyDoc, out |-> <<>>]) @@ @],
                   IF o.res = "ok" THEN {} ELSE {"accepted"}>>
    [] o.op = "feed" ->
         <<[s EXCEPT !.parsers[o.p].ps = Steps(@, case.cfgs[s.parsers[o.p].cfg], o.es)],
           IF o.res = "ok" THEN {} ELSE {"no exception"}>>
    [] o.op = "close" ->
         LET ps == CloseDoc(s.parsers[o.p].ps)
             m  == [cfg |-> s.parsers[o.p].cfg, ps |-> ps, out |-> o.out]
         IN <<[s EXCEPT !.parsers[o.p].ps = ps, !.parsers[o.p].out = o.out, !.memo = Append(@, m)],
              IF o.res # "ok" THEN {"no exception"} ELSE Failed(case, s.memo, m)>>
    \* the text of a document on its own, in a process of its own
    [] o.op = "ref" ->
         LET ps == FoldLeft(LAMBDA d, es : CloseDoc(Steps(d, case.cfgs[o.cfg], es)), EmptyDoc, o.parts)
             m  == [cfg |-> o.cfg, ps |-> ps, out |-> o.out]
         IN <<[s EXCEPT !.memo = Append(@, m)],
              IF o.res # "ok" THEN {"no exception"} ELSE Failed(case, s.memo, m)>>
    [] o.op = "read" ->
         <<s, IF o.res # "ok" THEN {"no exception"} ELSE IF o.out = s.parsers[o.p].out THEN {} ELSE {"stable"}>>
    [] o.op = "reset" ->
         <<[s EXCEPT !.parsers[o.p].ps = EmptyDoc, !.parsers[o.p].out = <<>>],
           IF o.res = "ok" THEN {} ELSE {"no exception"}>>

Consume == /\ trBad = <<>>
           /\ trPos <= Len(Cases[trCase].ops)
           /\ LET r == OpResult(Cases[trCase], trState, Cases[trCase].ops[trPos])
              IN /\ trState' = r[1]
                 /\ IF r[2] = {} THEN trBad' = <<>>
                    ELSE /\ trBad' = <<trPos>>
                         /\ PrintT(<<"REJECT", Cases[trCase].id, trPos, r[2]>>)
           /\ trPos' = trPos + 1
           /\ trCase' = trCase

Next == Consume
=============================================================================
