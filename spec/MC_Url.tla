------------------------------- MODULE MC_Url --------------------------------
(***************************************************************************)
(* All targets of links made of some pieces.                                *)
(***************************************************************************)
EXTENDS Families, Json, IOUtils

P(s) == T(s)
Schemes == <<<<>>, P("gopher:"), P("http:"), P("HTTPS:"), P("mailto:"), P("GOPHER:"), P("news:")>>
Hosts == <<<<>>, P("//h.org"), P("//H.org:7070"), P("//u:p@h.org"), P("//h.org:"), P("//[::1]:71"), P("//h.org:x"),
           P("//[h"), P("//h.org:99999"), P("//"), P("//h.txt")>>
Dirs == <<<<>>, P("/"), P("/1/a.b/"), P("../x/"), P("d.gif/"), P("./"), P("//y/")>>
Names == <<<<>>, P("f"), P("f.txt"), P("f.html"), P("f.HTM"), P("f.tar.gif"), P("f.jpeg"), P(".txt"), P("f."), P("f.md.zip"),
           P("png"), P("f.csv"), P("f.htm"), P("f.bmp"), P("a b.tsv"), P("f.TXT"), P("f.tiff"), P("f.jpg"), P("f.jpeg.x"), P("f.tif")>>
Ends == <<<<>>, P("?q=a.gif"), P("#x.gif"), P(";v=1.txt"), P("?a/b.png"), P("#/x"), P(":80")>>

Host == P("my.host")
PGopher == P("gopher:")
PHost == P("h.org")
P7070 == P("7070")
P70 == P("70")
ASSUME PrintT(<<"ALPHABET", ToJson([schemes |-> Schemes, hosts |-> Hosts, dirs |-> Dirs, names |-> Names, ends |-> Ends])>>)

VARIABLE urAt   \* the pieces so far: scheme, host, folder, name, end
vars == <<urAt>>
Sizes == <<Len(Schemes), Len(Hosts), Len(Dirs), Len(Names), Len(Ends)>>
Init == urAt = <<>>
Next == Len(urAt) < 5 /\ \E i \in 1..Sizes[Len(urAt) + 1] : urAt' = Append(urAt, i)
urScheme == urAt[1]
urHost == urAt[2]
urDir == urAt[3]
urName == urAt[4]
urEnd == urAt[5]

Path == Dirs[urDir] \o Names[urName]
Href == Schemes[urScheme] \o Hosts[urHost] \o Path \o Ends[urEnd]
G == GopherLink(Href, Host, 7070)
Web == G.selector = T_URL \o Href /\ G.type = <<104>> /\ G.host = Host /\ G.port = P7070
Scheme == ToLower(Schemes[urScheme])
Inv == Len(urAt) = 5 =>
  LET u == UrlParts(Href)
      g == G
  IN /\ Len(g.type) = 1 /\ g.type[1] \in {48, 49, 57, 73, 103, 104}
     \* what is neither gopher nor relative goes through the web
     /\ Scheme \notin {<<>>, PGopher} => Web
     /\ ~u.ok => Web
     \* a name of a file has the type of its extension, whatever is around it
     /\ (Scheme = PGopher /\ urHost \in {2, 3, 5} /\ Dirs[urDir] # <<>> /\ Dirs[urDir][1] = 47 /\ urEnd \in {1, 2, 3, 5, 6}) =>
          /\ g.type = ItemType(Names[urName])
          /\ g.selector = Path
          /\ g.host = PHost
          /\ g.port = (IF urHost = 3 THEN P7070 ELSE P70)
     /\ (Scheme = <<>> /\ urHost = 1 /\ urDir \in 1..6 /\ urEnd \in 1..6) =>
          /\ g.host = Host /\ g.port = P7070
          /\ urEnd # 4 => g.type = ItemType(Names[urName])
          \* parameters belong to the path
          /\ g.selector = Path \o (IF urEnd = 4 THEN Ends[4] ELSE <<>>)
     \* the parts after the path never matter for the type
     /\ urEnd \in {2, 3, 5, 6} =>
          GopherLink(Schemes[urScheme] \o Hosts[urHost] \o Path, Host, 7070).type = g.type
     /\ ~\E c \in SeqSet(g.selector) : c \in {TAB, NL} \* none come from nowhere
ChunkInv == TRUE
Emit == Len(urAt) = 5 => PrintT(<<"CASE", 1, urAt>>)
=============================================================================
