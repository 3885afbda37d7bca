------------------------------- MODULE TreeGen -------------------------------
(* Constraint trees to build, read back and evaluate.                       *)
EXTENDS Tree, Tier, TLC, FiniteSets, SequencesExt

Acct(k, o, e) == [key |-> k, own |-> o, emp |-> e]
AssetV == << Acct("u1", "NIFTY", FALSE), Acct("u2", "PX", FALSE) >>
AuthV == << Acct("u1", "SYS", TRUE), Acct("u2", "PX", FALSE), Acct("u1", "PX", TRUE), Acct("u3", "PY", FALSE) >>
RecV == << Acct("u1", "SYS", TRUE), Acct("u2", "PX", FALSE), Acct("u3", "PX", TRUE), Acct("u1", "PY", FALSE) >>
Ctxs == LET S == SetToSeq((1..2) \X (1..4) \X (0..4))
            mk(x) == [acc |-> << AssetV[x[1]], AuthV[x[2]], RecV[IF x[3] = 0 THEN 1 ELSE x[3]] >>, rec |-> x[3] # 0]
        IN [j \in 1..40 |-> mk(S[j])]

KeyLists == {<< >>, <<"u1">>, <<"PX">>, <<"u2", "PX">>, <<"PY", "u3", "u1">>}
Leaves == {TEmpty} \cup {TOwned(w, k) : w \in 0..2, k \in KeyLists} \cup {TMatch(w, k) : w \in 0..2, k \in KeyLists}
Few == {TEmpty, TMatch(0, <<"u1">>), TMatch(1, <<"u2", "u1">>), TMatch(2, <<"u1">>),
        TOwned(1, <<"PX">>), TOwned(2, <<"PX", "PY">>), TOwned(0, << >>)}
Lists(S) == {<< >>} \cup {<< x >> : x \in S} \cup {<< x, y >> : x \in S, y \in S}
Up(S) == {TNot(x) : x \in S} \cup {TAnd(k) : k \in Lists(S)} \cup {TOr(k) : k \in Lists(S)}
Triples(S) == {<< x, y, z >> : x \in S, y \in S, z \in S}
Fewer == {TEmpty, TMatch(2, <<"u1">>), TOwned(1, <<"PX">>)}

\* random larger trees
Pick(S) == RandomElement(S)
RECURSIVE RandT(_)
RandT(n) ==
    LET op == IF n = 0 THEN Pick({"owned", "match"}) ELSE Pick({"and", "or", "not", "owned", "match", "and", "or"})
        w == Pick(1..(IF n > 2 THEN 4 ELSE 6)) - 1
        who == Pick(0..2)
        ks == [j \in 1..Pick(0..4) |-> Pick({"u1", "u2", "u3", "PX", "PY", "SYS", "NIFTY"})]
    IN CASE op = "and" -> TAnd([j \in 1..w |-> RandT(n - 1)])
         [] op = "or" -> TOr([j \in 1..w |-> RandT(n - 1)])
         [] op = "not" -> TNot(RandT(n - 1))
         [] op = "owned" -> TOwned(who, ks)
         [] OTHER -> TMatch(who, ks)
RECURSIVE Nest(_, _)
Nest(t, n) == IF n = 0 THEN t ELSE Nest(IF n % 3 = 0 THEN TAnd(<< t >>) ELSE IF n % 3 = 1 THEN TNot(t) ELSE TOr(<< t >>), n - 1)

\* long lists and wide operators, decided by one entry at a random place
At(n, j, x, y) == [l \in 1..n |-> IF l = j THEN y ELSE x]
Wide == {TMatch(w, At(n, j, "PY", "u1")) : w \in 0..2, n \in {5, 8, 9, 16, 33}, j \in {1, 5, 8, 9, 16, 33}}
        \cup {TOwned(w, At(n, j, "NIFTY", "PX")) : w \in 1..2, n \in {5, 8, 9, 16, 33}, j \in {1, 5, 8, 9, 16, 33}}
        \cup {TAnd(At(n, j, TEmpty, TMatch(2, <<"u1">>))) : n \in {5, 8, 9, 17}, j \in {1, 5, 8, 9, 17}}
        \cup {TOr(At(n, j, TNot(TEmpty), TOwned(1, <<"PX">>))) : n \in {5, 8, 9, 17}, j \in {1, 5, 8, 9, 17}}

Trees ==
    SetToSeq(Leaves \cup Up(Leaves) \cup Wide)
    \o SetToSeq(Up(Up(Fewer)) \cup {TAnd(k) : k \in Triples(Few)} \cup {TOr(k) : k \in Triples(Few)})
    \o (IF Deep THEN SetToSeq(Up(Up(Few))) ELSE << >>)
    \o [j \in 1..(IF Deep THEN 3000 ELSE 150) |-> RandT(4)]
    \o [j \in 1..24 |-> Nest(IF j % 2 = 0 THEN TMatch(2, <<"u1">>) ELSE TOwned(1, <<"PX">>), j)]
=============================================================================
