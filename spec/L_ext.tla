-------------------------------- MODULE L_ext --------------------------------
(* Extension contents to build and read back, alone and inside an account. *)
EXTENDS Contents

Header == [keys |-> [k \in {"u1", "u2", "u3", "PX", "PY", "SYS", "NIFTY"} |-> KB(k)]]
AccCase(es, tail) == [k |-> "acc", es |-> es, d |-> Lay(es) \o tail]
RECURSIVE ExtCases(_)
ExtCases(t) ==
    IF t > 11 THEN << >>
    ELSE LET q == SetToSeq(Contents(t) \X (IF t = T_Creators THEN {"-", "u1"} ELSE {"u2"}))
         IN [j \in 1..Len(q) |-> [k |-> "ext", t |-> t, c |-> q[j][1], auth |-> q[j][2]]] \o ExtCases(t + 1)
Cases ==
    LET rand == [j \in 1..(IF Deep THEN 1500 ELSE 66) |->
                    LET t == 1 + (j % 11) IN [k |-> "ext", t |-> t, c |-> RandC(t), auth |-> "u1"]]
        q == SetToSeq(Accounts)
        acc == [j \in 1..Len(q) |-> AccCase([l \in 1..Len(q[j][1]) |-> Item(q[j][1][l])], q[j][2])]
        racc == [j \in 1..(IF Deep THEN 600 ELSE 30) |-> AccCase(TLCEval([l \in 1..Pick(1..6) |-> RandE]), << >>)]
    IN ExtCases(1) \o rand \o acc \o racc \o [j \in 1..Len(Fars) |-> AccCase(Far(Fars[j][1], Fars[j][2]), << >>)]

SpecGood(c) == c.k = "ext" => WellFormed(c.t, EncX(c.t, c.c))

ExtGood(c, o) ==
    LET d == EncX(c.t, c.c)
        v == ViewX(c.t, c.c)
        r == OnCreate(c.t, d, c.auth)
    IN /\ Len(o.outs) > 0
       /\ \A j \in 1..Len(o.outs) : LET u == o.outs[j] IN u.ok /\ u.d = d /\ u.len = Len(d) /\ u.v = v
       /\ o.oc.ok = r.ok
       /\ r.ok => o.oc.d = r.d

Known(e) == e.t \in Types
AccGood(c, o) ==
    LET es == c.es
        n == Len(es)
        idx(t) == {j \in 1..n : es[j].t = t}
        fst(t) == CHOOSE j \in idx(t) : \A l \in idx(t) : j <= l
        at(j) == << es[j].t, LenX(es[j]), OffX(es, j) >>
        known == SelectSeq(es, Known)
        \* the last extension before the first unknown one
        stop == IF \E j \in 1..n : ~ Known(es[j]) THEN (CHOOSE j \in 1..n : ~ Known(es[j]) /\ \A l \in 1..(j-1) : Known(es[l])) - 1 ELSE n
    IN /\ o.types = [j \in 1..Len(known) |-> known[j].t]
       /\ o.first = (IF n > 0 /\ Known(es[1]) THEN at(1) ELSE << >>)
       /\ o.last = (IF stop > 0 THEN at(stop) ELSE << >>)
       /\ \A t \in Types :
             LET p == idx(t) # {} IN
             /\ o.has[t] = p
             /\ o.at[t] = (IF p THEN at(fst(t)) ELSE << >>)
             /\ o.views[t] = (IF p THEN << ViewX(t, es[fst(t)].c) >> ELSE << << >> >>)

Good(c, o) == IF c.k = "ext" THEN ExtGood(c, o) ELSE AccGood(c, o)
=============================================================================
