--------------------------------- MODULE U_lam ---------------------------------
(* Rent and refunds: every path that funds, grows, shrinks or closes an        *)
(* account, with every kind of payer and recipient and with prefunded or       *)
(* overfunded accounts.                                                        *)
EXTENDS Gen

R(n, b) == [j \in 1..n |-> (b + j) % 256]
Bk(n) == X(T_Bucket, R(n, 10))
Bl == X(T_Blob, << 1, 97 >> \o R(8, 50))
Half == [t |-> T_Blob, n |-> 10, hd |-> TRUE, d |-> << 1, 97 >>]
As(es) == Asset(0, TRUE, "u1", "u1", Name1, es)
Rich(a, v) == [a EXCEPT !.xl = v]
Buf(es, len, v) == [k |-> "buf", exts |-> es, len |-> len, xl |-> v]
Inits == {[A |-> a, H |-> h] :
            a \in {NONE, Rich(NONE, 1000000), As(<< >>), As(<< Bk(3), Bl >>), Rich(As(<< Bk(3) >>), 70000), Rich(As(<< Bl, Bk(30) >>), 9000000),
                   Rich([As(<< Bk(3) >>) EXCEPT !.len = @ + 40], 100),
                   Buf(<< [t |-> T_Blob, n |-> 10, d |-> << 1, 97 >>] >>, 186, 0), Buf(<< [t |-> T_Blob, n |-> 10, d |-> << 1, 97 >>] >>, 186, 70000),
                   Buf(<< [t |-> T_Bucket, n |-> 8, d |-> R(8, 10)] >>, 192, 50000)},
            h \in {NONE, As(<< >>)}}
Depth == IF Deep THEN 2 ELSE 1
Bound(s) == /\ s.H = NONE \/ s.H = As(<< >>)
            /\ s.A.xl \in {0, 1, 100, 50000, 70000, 1000000} \/ Deep
            /\ s.A.k # "none" => s.A.len <= 300 /\ Len(s.A.exts) <= 2
            /\ s.A.xl < 20000000

\* << payer, signatures >>
Payers == {<< "u5", << "u5" >> >>, << "u5", << >> >>, << "-", << >> >>, << "x1", << "x1" >> >>, << "H", << "H" >> >>, << "A", << >> >>, << "u1", << >> >>}
Sys == {"SYS", "-", "PX"}
To == {"u6", "u1", "-", "A", "H", "x1"}
S1(p) == << "u1" >> \o p[2]
SA(p) == << "A" >> \o p[2]
Instrs == Cat(<<
    Seq_({ICreate(<< "A", "u1", "u1", "-", "-", p[1], y >>, SA(p), Name1, 0, TRUE, es) : p \in Payers, y \in Sys, es \in {<< >>, << Bk(5), Bl >>}}),
    Seq_({IAllocate(<< "A", p[1], y >>, SA(p), e) : p \in Payers, y \in Sys, e \in {Bk(8), Half}}),
    Seq_({IWrite(<< "A", p[1], y >>, SA(p), ow, d) : p \in {q \in Payers : q[1] # "-"}, y \in {"SYS", "PX"}, ow \in {FALSE}, d \in {R(8, 50)}}),
    Seq_({IWrite(<< "A", "u5", "SYS" >>, << "A", "u5" >>, TRUE, d) : d \in {<< >>, << 1, 97 >> \o R(8, 50)}}),
    Seq_({IUpdate(<< "A", "u1", "-", "-", p[1], y >>, S1(p), FALSE, << >>, FALSE, FALSE, TRUE, Bk(n)) : p \in Payers, y \in Sys, n \in {0, 5, 20}}),
    Seq_({IRemove(<< "A", "u1", "-", to >>, << "u1" >>, t) : to \in To \ {"-"}, t \in {T_Bucket, T_Blob}}),
    Seq_({IRemove(<< "A", "u1", g, to >>, << "u1" >>, T_Bucket) : g \in {"H", "x1"}, to \in {"u6", "H"}}),
    Seq_({IUpdate(<< "A", "u1", "-", g, p[1], "SYS" >>, S1(p), FALSE, << >>, FALSE, FALSE, TRUE, Bk(n)) : g \in {"H"}, p \in {<< "u5", << "u5" >> >>, << "u5", << >> >>, << "-", << >> >>}, n \in {0, 20}}),
    Seq_({IResize(<< "A", "u1", p[1], y >>, S1(p), FALSE, v) : p \in {q \in Payers : q[1] # "-"}, y \in Sys, v \in {0, 8}}),
    Seq_({IResize(<< "A", "u1", p[1], y >>, S1(p), TRUE, 0) : p \in {q \in Payers : q[1] # "-"}, y \in {"SYS", "-"}}),
    Seq_({I0("Burn", << "A", u, to, "-" >>, << u >>) : u \in {"u1", "u2"}, to \in To}),
    Seq_({I0("Close", << "A", to >>, sg) : to \in To \ {"-"}, sg \in {<< "A" >>, << "u1" >>}}),
    Seq_({IFund("A", "u6", v) : v \in {1, 1000000, 500}})
    >>)
=============================================================================
