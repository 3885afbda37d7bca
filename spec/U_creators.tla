------------------------------- MODULE U_creators -------------------------------
(* Creator lists: creation with and without the authority's signature, chunked *)
(* upload, verification, updates inline and from a buffer, removal.            *)
EXTENDS Gen

L1 == Creator("u1", 1, 60) \o Creator("u2", 1, 40)
L2 == Creator("u2", 0, 50) \o Creator("u3", 1, 50)
L3 == Creator("u1", 1, 100)
L4 == Creator("u3", 1, 0) \o Creator("u1", 0, 30) \o Creator("u2", 0, 70) \o Creator("u4", 0, 0)
Dup == Creator("u1", 0, 50) \o Creator("u1", 1, 50)
Low == Creator("u1", 0, 99)
High == Creator("u1", 0, 50) \o Creator("u2", 0, 51)
Wrap == Creator("u1", 0, 200) \o Creator("u2", 0, 156)
Wrap3 == Creator("u1", 0, 255) \o Creator("u2", 0, 255) \o Creator("u3", 0, 102)
Cut == SubSeq(L1, 1, 67)
Unflag(d) == WithFlags(d, LAMBDA j : 0)
Good == {L1, L2, L3, L4, Dup}
Lists == Good \cup {Low, High, Wrap, Wrap3, Cut, << >>}

Inits == {[A |-> NONE, B |-> NONE]}
    \cup {[A |-> Asset(0, TRUE, "u1", "u1", Name1, << X(T_Bucket, << 1, 2, 3 >>), X(T_Creators, Unflag(d)), X(T_Links, << 1, 97, 0 >>) >>), B |-> b] :
            d \in {L1, L4, Dup}, b \in {NONE}}
     \cup {[A |-> Asset(0, TRUE, "u2", "u2", Name1, << >>), B |-> NONE]}
Size(s, k) == IF s[k].k = "buf" THEN Len(s[k].exts) ELSE 0
Bound(s) == /\ Size(s, "A") <= 1 /\ Size(s, "B") <= 1
            /\ s.A.k # "asset" => s.B.k = "none"
            /\ s.B.k # "asset"
            /\ s.A.xl = 0 /\ s.B.xl = 0
            /\ (s.B.k = "buf" /\ s.B.exts # << >>) => (s.B.exts[1].d \in Good \cup {Low, Wrap} \cup {Unflag(x) : x \in Good} \/ Deep)
            /\ s.A.k = "asset" /\ HasExt(s.A, T_Creators) /\ s.B.k # "none" => Deep \/ NCreators(ExtData(s.A, T_Creators)) = 2

X_(d) == X(T_Creators, d)
Cr(k, au, sg, d) == ICreate(<< k, au, "u4", "-", "-", "u5", "SYS" >>, << k, "u5" >> \o sg, Name1, 0, TRUE, << X_(d) >>)
Instrs == Cat(<<
    Seq_({Cr("A", au, sg, d) : au \in {"u1", "u3"}, sg \in {<< >>, << "u1" >>, << "u2" >>, << "u3" >>}, d \in Lists}),
    Seq_({ICreate(<< "A", "u1", "u4", "-", "-", "u5", "SYS" >>, << "A", "u5" >> \o sg, Name1, 0, TRUE, << >>) : sg \in {<< >>, << "u1" >>}}),
    Seq_({IAllocate(<< k, "u5", "SYS" >>, << k, "u5" >>, e) : k \in {"A", "B"},
          e \in {X_(d) : d \in {L1, L2, L3, Wrap, Low, Dup}} \cup {[t |-> T_Creators, n |-> 68, hd |-> TRUE, d |-> SubSeq(L1, 1, 40)]}}),
    Seq_({IWrite(<< k, "u5", "SYS" >>, << k, "u5" >>, ow, d) : k \in {"A", "B"}, ow \in BOOLEAN, d \in {SubSeq(L1, 41, 68), L1, Wrap, High}}),
    Seq_({IExt("A", u, "u5", << u, "u5" >>, X_(d)) : u \in {"u1", "u2"}, d \in Lists}),
    Seq_({IBuf("A", u, "B", "u5", << u, "u5" >>) : u \in {"u1", "u2"}}),
    Seq_({I0(op, << "A", u >>, sg) : op \in {"Verify", "Unverify"}, u \in {"u1", "u2", "u3", "u4"}, sg \in {<< "u1" >>, << "u2" >>, << "u3" >>, << "u4" >>, << >>}}),
    << IRemove(<< "A", "u1", "-", "u5" >>, << "u1" >>, T_Creators), IRemove(<< "A", "u2", "-", "u5" >>, << "u2" >>, T_Creators),
       I0("Handover", << "A", "u1", "u2" >>, << "u1", "u2" >>), I0("Handover", << "A", "u2", "u1" >>, << "u1", "u2" >>),
       IMut("A", "u1", << "u1" >>, FALSE), I0("Verify", << "F1", "u1" >>, << "u1" >>), I0("Verify", << "B", "u1" >>, << "u1" >>) >>
    >>)
=============================================================================
