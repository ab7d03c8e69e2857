------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* Parsers as their users see them: they are created with a configuration,   *)
(* fed, closed, read, reset, in any order, and any number of them.          *)
(***************************************************************************)
EXTENDS Render

\* Which configurations are accepted
CfgError(cfg) == cfg.fmt = "gophermap" /\ (cfg.lp = "inline" \/ cfg.host = <<>>)

\* What a parser is: its configuration, the document so far, and the text that
\* it became when it was closed last.
NewParser(cfg) == [cfg |-> cfg, ps |-> EmptyDoc, out |-> <<>>]
FeedParser(s, es) == [s EXCEPT !.ps = Steps(@, s.cfg, es)]
CloseParser(s) == LET ps == CloseDoc(s.ps) IN [s EXCEPT !.ps = ps, !.out = DocText(ps, s.cfg)]
ResetParser(s) == NewParser(s.cfg)
=============================================================================
