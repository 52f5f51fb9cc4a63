------------------------------ MODULE PathMap ------------------------------
(***************************************************************************)
(* Path mappings.  A path is the sequence of its names from the root: the  *)
(* path "/a/b" is <<"a", "b">>, with or without a separator at its end,    *)
(* and "/" is <<>>.  A mapping pairs a client (local) with an Ansible      *)
(* (remote) directory or file; the first whose own side contains the path  *)
(* counts, and only once.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Under(root, p) == Len(root) <= Len(p) /\ SubSeq(p, 1, Len(root)) = root
Move(from, to, p) == to \o SubSeq(p, Len(from) + 1, Len(p))

\* The first mapping the path is under on that side, 0: none.
FirstOf(maps, side, p) ==
    LET hits == { i \in DOMAIN maps : Under(maps[i][side], p) }
    IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

ToAnsible(maps, p) ==
    LET i == FirstOf(maps, "local", p)
    IN IF i = 0 THEN p ELSE Move(maps[i].local, maps[i].remote, p)

ToClient(maps, p) ==
    LET i == FirstOf(maps, "remote", p)
    IN IF i = 0 THEN p ELSE Move(maps[i].remote, maps[i].local, p)
=============================================================================
