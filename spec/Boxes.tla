------------------------------- MODULE Boxes --------------------------------
(***************************************************************************)
(* Nesting boxes.  A box is as wide as its parent minus everything that the  *)
(* parent and its own sides take away.  Sides are <<top, right, bottom,      *)
(* left>>.                                                                  *)
(***************************************************************************)
EXTENDS Text

ZeroSides == <<0, 0, 0, 0>>
TOP == 1
RIGHT == 2
BOTTOM == 3
LEFT == 4

\* tm, tp, tb: margin, padding and border of the box and of all around it, left
\* and right.  lt: what the prefix of each line takes, tlt: the same in total.
RootBox(w, m, p, b) ==
  [w |-> w, m |-> m, p |-> p, b |-> b, tm |-> m[LEFT] + m[RIGHT], tp |-> p[LEFT] + p[RIGHT],
   tb |-> b[LEFT] + b[RIGHT], lt |-> 0, tlt |-> 0]

SubBox(par, m, p, b, lt) ==
  [w |-> par.w, m |-> m, p |-> p, b |-> b, tm |-> par.tm + m[LEFT] + m[RIGHT],
   tp |-> par.tp + p[LEFT] + p[RIGHT], tb |-> par.tb + b[LEFT] + b[RIGHT],
   lt |-> lt, tlt |-> par.tlt + lt]

\* For the content of the element
InnerWidth(b) == b.w - (b.tm + b.tp + b.tb)
\* For the content of its lines
WrapWidth(b) == Max2(1, InnerWidth(b) - b.tlt)
\* With the padding and line prefix of the element itself
PaddedWidth(b) == b.w - (b.tm + b.tb + (b.tp - b.p[LEFT] - b.p[RIGHT]) + (b.tlt - b.lt))
BorderedWidth(b) == PaddedWidth(b) + b.b[LEFT] + b.b[RIGHT]
=============================================================================
