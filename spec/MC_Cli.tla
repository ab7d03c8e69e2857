------------------------------- MODULE MC_Cli --------------------------------
(* All paths made of a few pieces. *)
EXTENDS Cli, IOUtils, Json

MaxLen == atoi(IOEnv.DEPTH)
Pieces == << <<97>>, <<46>>, <<109, 100>>, <<47>>, <<104, 116, 109, 108>>, <<77, 68>> >>   \* a . md / html MD
ASSUME PrintT(<<"ALPHABET", ToJson([alpha |-> Pieces, cfgs |-> <<1>>, pre |-> <<>>])>>)
VARIABLES clHist, clPath
Init == clHist = <<>> /\ clPath = <<>>
Next == /\ Len(clHist) < MaxLen
        /\ \E i \in 1..Len(Pieces) :
             /\ Pieces[i] = <<47>> => clPath # <<>> /\ clPath[Len(clPath)] # 47
             /\ clHist' = Append(clHist, i)
             /\ clPath' = clPath \o Pieces[i]
Inv == LET s == SuffixOf(clPath)
       IN /\ s # <<>> => s[1] = 46 /\ Len(s) > 1 /\ HasSuffix(NameOf(clPath), s) /\ Len(s) < Len(NameOf(clPath))
          /\ ~\E k \in 2..Len(s) : s[k] \in {46, 47}
          /\ IsMarkdown(clPath) => HasSuffix(NameOf(clPath), <<46, 109, 100>>)
          /\ HasSuffix(clPath, <<97, 46, 109, 100>>) => IsMarkdown(clPath)
          \* the folders do not matter
          /\ IsMarkdown(<<97, 46, 109, 100, 47>> \o clPath) = (IsMarkdown(clPath) \/ NameOf(clPath) = <<>>)
ChunkInv == TRUE
Emit == (clPath # <<>> /\ clPath[Len(clPath)] # 47 /\ NameOf(clPath) \notin {<<>>, <<46>>, <<46, 46>>})
           => PrintT(<<"CASE", 1, clHist>>)
=============================================================================
