------------------------------- MODULE Links --------------------------------
(***************************************************************************)
(* Where a link goes: the item type, selector, host and port of its line in *)
(* a gophermap.                                                             *)
(***************************************************************************)
EXTENDS Text

T_http   == <<104, 116, 116, 112>>
T_https  == T_http \o <<115>>
T_gopher == <<103, 111, 112, 104, 101, 114>>
T_URL    == <<85, 82, 76, 58>>
SLASH == 47
DOT == 46
COLON == 58

ToLower(s) == Map(LAMBDA c : IF c \in UpperAZ THEN c + 32 ELSE c, s)
\* Hosts are the same in any case, but not the zones of addresses, after %
HostCase(s) == LET p == SelectInSeq(s, LAMBDA c : c = 37)
               IN IF p = 0 THEN ToLower(s) ELSE ToLower(SubSeq(s, 1, p - 1)) \o SubSeq(s, p, Len(s))
Ascii(s) == s

SchemeChars == (97..122) \cup (65..90) \cup Digits \cup {43, 45, 46}
AsciiLetters == (97..122) \cup (65..90)

\* Everything before position p, everything after it
Before(s, p) == SubSeq(s, 1, p - 1)
After(s, p)  == SubSeq(s, p + 1, Len(s))
Pos(s, C) == SelectInSeq(s, LAMBDA c : c \in C)
RPos(s, C) == SelectLastInSeq(s, LAMBDA c : c \in C)

\* The parts of a URL: scheme, authority, path (with parameters), and
\* whether it can be taken apart at all.
UrlParts(href0) ==
  LET href == Drop(LStripW(href0, 0..32), {9, 10, 13})
      c    == Pos(href, {COLON})
      hasS == /\ c > 1
              /\ href[1] \in AsciiLetters
              /\ \A i \in 1..(c - 1) : href[i] \in SchemeChars
      scheme == IF hasS THEN ToLower(Before(href, c)) ELSE <<>>
      r1   == IF hasS THEN After(href, c) ELSE href
      hasN == HasPrefix(r1, <<SLASH, SLASH>>)
      body == IF hasN THEN SubSeq(r1, 3, Len(r1)) ELSE r1
      e    == Pos(body, {SLASH, 63, 35})
      net  == IF ~hasN THEN <<>> ELSE IF e = 0 THEN body ELSE Before(body, e)
      r2   == IF ~hasN THEN r1 ELSE IF e = 0 THEN <<>> ELSE SubSeq(body, e, Len(body))
      f    == Pos(r2, {35})
      r3   == IF f > 0 THEN Before(r2, f) ELSE r2
      q    == Pos(r3, {63})
      r4   == IF q > 0 THEN Before(r3, q) ELSE r3
      badB == Contains1(net, 91) # Contains1(net, 93)
      \* the host and the port
      at   == RPos(net, {64})
      hp   == After(net, at)
      br   == Contains1(hp, 91)
      hostB == SubSeq(hp, Pos(hp, {91}) + 1, Pos(hp, {93}) - 1)
      rest  == IF br THEN After(hp, Pos(hp, {93})) ELSE hp
      pc    == Pos(rest, {COLON})
      host  == HostCase(IF br THEN hostB ELSE IF pc > 0 THEN Before(hp, pc) ELSE hp)
      portT == IF pc > 0 THEN After(rest, pc) ELSE <<>>
      portN == \A i \in DOMAIN portT : portT[i] \in Digits
      RECURSIVE nat(_)
      nat(t) == IF t = <<>> THEN 0 ELSE nat(SubSeq(t, 1, Len(t) - 1)) * 10 + (t[Len(t)] - 48)
      big   == Len(portT) > 5
      port  == IF portT = <<>> \/ ~portN \/ big THEN -1 ELSE nat(portT)
      badP  == portT # <<>> /\ (~portN \/ big \/ port > 65535)
  IN [scheme |-> scheme, host |-> host, port |-> port, path |-> r4, ok |-> ~badB /\ ~badP]

Txt_html == <<104, 116, 109, 108>>
Exts == [h |-> {Txt_html, <<104, 116, 109>>},
         g |-> {<<103, 105, 102>>},
         I |-> {<<106,112,103>>, <<106,112,101,103>>, <<112,110,103>>, <<98,109,112>>, <<116,105,102,102>>},
         t |-> {<<116,120,116>>, <<99,115,118>>, <<116,115,118>>, <<109,100>>}]

\* The item type by the extension of the last segment of the path
ItemType(path) ==
  LET seg == After(path, RPos(path, {SLASH}))
      d   == RPos(seg, {DOT})
      ext == After(seg, d)
  IN IF d <= 1 THEN <<49>>
     ELSE IF ext \in Exts.h THEN <<104>>
     ELSE IF ext \in Exts.g THEN <<103>>
     ELSE IF ext \in Exts.I THEN <<73>>
     ELSE IF ext \in Exts.t THEN <<48>>
     ELSE <<57>>

\* All fields are texts.
GopherLink(href, host, port) ==
  LET u == UrlParts(href)
      web == [type |-> <<104>>, selector |-> T_URL \o href, host |-> host, port |-> IntText(port)]
  IN IF ~u.ok THEN web
     ELSE IF u.scheme = <<>> \/ (u.scheme = T_gopher /\ u.host = <<>>)
     THEN [type |-> ItemType(u.path), selector |-> u.path, host |-> host, port |-> IntText(port)]
     ELSE IF u.scheme = T_gopher
     THEN [type |-> ItemType(u.path), selector |-> u.path, host |-> u.host,
           port |-> IF u.port < 0 THEN <<55, 48>> ELSE IntText(u.port)]
     ELSE web
=============================================================================
