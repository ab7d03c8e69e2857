--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command: which files are Markdown, and what it prints.                *)
(***************************************************************************)
EXTENDS Text

\* The last part of a path.  What comes after its last dot is its suffix, but
\* a dot at its start or its end makes none.
NameOf(path) ==
  LET parts == SelectSeq(SplitOn(path, 47), LAMBDA x : x # <<>> /\ x # <<46>>)
  IN IF parts = <<>> THEN <<>> ELSE parts[Len(parts)]
SuffixOf(path) ==
  LET n == NameOf(path)
      d == SelectLastInSeq(n, LAMBDA c : c = 46)
  IN IF d <= 1 \/ d = Len(n) THEN <<>> ELSE SubSeq(n, d, Len(n))
IsMarkdown(path) == SuffixOf(path) = <<46, 109, 100>>

\* html: of the source, as it is and taken as Markdown; lib: what the library
\* makes of each of them.
Printed(path, dump, asIs, asMd, libIs, libMd) ==
  LET md == IsMarkdown(path)
      html == IF md THEN asMd ELSE asIs
  IN (IF dump THEN html \o <<NL>> ELSE <<>>) \o (IF md THEN libMd ELSE libIs) \o <<NL>>
=============================================================================
