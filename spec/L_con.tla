-------------------------------- MODULE L_con --------------------------------
(* Constraints: trees to build, read back and evaluate, and damaged bytes. *)
EXTENDS TreeGen

\* damaged encodings
Bases == {TEmpty, TMatch(1, <<"u1">>), TOwned(2, << >>), TNot(TMatch(2, <<"u1">>)), TAnd(<< >>),
          TAnd(<< TEmpty, TMatch(0, <<"u1">>) >>), TOr(<< TNot(TEmpty), TOwned(2, <<"PX">>) >>),
          TNot(TAnd(<< TOr(<< TEmpty >>), TMatch(1, << >>) >>)), TOwned(1, <<"u1", "PX">>)}
Set(d, p, v) == [d EXCEPT ![p] = v]
Damaged(d) ==
    LET n == Len(d) IN
    {SubSeq(d, 1, j) : j \in 0..(n - 1)}
    \cup {d \o [j \in 1..k |-> v] : k \in 1..16, v \in {0, 4}}
    \cup {Set(d, p, v) : p \in {q \in 1..n : q <= 48}, v \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 24, 40, 41, 255}}
    \cup {Set(d, p, (d[p] + 1) % 256) : p \in 1..n} \cup {Set(d, p, (d[p] + 255) % 256) : p \in 1..n}
Bytes == SetToSeq(UNION {Damaged(Enc(t)) : t \in Bases})

Header == [keys |-> [k \in {"u1", "u2", "u3", "PX", "PY", "SYS", "NIFTY"} |-> KB(k)], ctxs |-> Ctxs]
Cases == LET T == Trees
             B == Bytes
         IN [j \in 1..Len(T) |-> [k |-> "tree", t |-> T[j]]] \o [j \in 1..Len(B) |-> [k |-> "bytes", d |-> B[j]]]

Codes(c) == [accts |-> [j \in 1..3 |-> c.acc[j].key], own |-> [j \in 1..3 |-> c.acc[j].own], emp |-> [j \in 1..3 |-> c.acc[j].emp]]
\* the byte-level meaning used by the program's specification is the meaning of the tree
SpecGood(c) ==
    c.k = "tree" => LET d == Enc(c.t) IN
        /\ Exact(d, 0, Len(d))
        /\ \A j \in 1..Len(Ctxs) : Ctxs[j].rec => (Eval(d, 0, Codes(Ctxs[j])) <=> Sem(c.t, Ctxs[j]) = 1)

OutGood(c, o) ==
    IF c.k = "tree"
    THEN LET d == Enc(c.t) IN
         /\ o.ok /\ o.d = d /\ o.again = d /\ o.size = Len(d) /\ o.hdr = SubSeq(d, 1, 8)
         /\ \A j \in 1..Len(Ctxs) : o.res[j] \in Results(c.t, Ctxs[j])
    ELSE LET d == c.d IN
         /\ Exact(d, 0, Len(d)) => o.ok /\ o.again = d
         /\ o.ok => /\ ConstraintOK(d, 0, Len(d))
                    /\ \A j \in 1..Len(Ctxs) :
                          Ctxs[j].rec => o.res[j] = (IF Eval(d, 0, Codes(Ctxs[j])) THEN 1 ELSE 0)
Good(c, o) == Len(o.outs) > 0 /\ \A j \in 1..Len(o.outs) : OutGood(c, o.outs[j])
=============================================================================
