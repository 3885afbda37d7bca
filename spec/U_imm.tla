--------------------------------- MODULE U_imm ---------------------------------
(* Mutability and update authority: every metadata path, signed by the current *)
(* authority, a former one, the owner, the delegate or nobody.                 *)
EXTENDS Gen

R(n, b) == [j \in 1..n |-> (b + j) % 256]
Bk(n) == X(T_Bucket, R(n, 10))
At == X(T_Attributes, << 1, 97, 1, 98 >>)
Gr(m) == X(T_Grouping, Grouping(m, "SYS"))
Cr == X(T_Creators, Creator("u1", 0, 60) \o Creator("u3", 0, 40))
Es == << Bk(3), Cr, Gr(0) >>
As(m, au, es) == Asset(0, m, "u2", au, Name1, es)
B1 == [k |-> "buf", exts |-> << [t |-> T_Bucket, n |-> 8, d |-> R(8, 10)] >>, len |-> 192, xl |-> 0]
Inits == {[A |-> As(m, au, Es), B |-> b, H |-> As(TRUE, "u1", << >>)] : m \in BOOLEAN, au \in {"u1", "u2", "SYS"}, b \in {NONE, B1}}
VerCount(a) == IF HasExt(a, T_Creators) THEN LET d == ExtData(a, T_Creators) IN CrVer(d, 1) + CrVer(d, 2) ELSE 0
DataLen(a, t) == IF HasExt(a, t) THEN Len(ExtData(a, t)) ELSE 0
One(b) == IF b THEN 1 ELSE 0
Wt(a) == IF a.k # "asset" THEN 0
         ELSE One(a.name # Name1) + One(VerCount(a) # 0) + One([j \in 1..Len(a.exts) |-> a.exts[j].t] # << T_Bucket, T_Creators, T_Grouping >>)
              + One(a.len # EndOf(a.exts)) + a.st + One(a.da # "-") + One(a.owner # "u2") + One(DataLen(a, T_Bucket) # 3)
Bound(s) == /\ s.B.k = "none" \/ s.B = B1
            /\ s.H.k = "asset" /\ s.H.auth = "u1" /\ s.H.owner = "u2" /\ s.H.exts = << >>
            /\ s.A.k = "asset" => s.A.len <= 400
            /\ s.A.xl = 0
            /\ Wt(s.A) + One(s.H.group # "-") <= (IF Deep THEN 4 ELSE 2)

W3 == {"u1", "u2", "u3", "SYS"}
Sg2 == {<< "u1" >>, << "u2" >>, << "u3" >>, << >>}
P5(sg) == << "u5" >> \o sg
Instrs == Cat(<<
    Seq_({IName("A", u, sg, n) : u \in W3, sg \in Sg2, n \in {Name2}}),
    Seq_({IName("A", u, << u >>, n) : u \in {"u1", "u2"}, n \in {Name1, << >>, R(35, 64), R(36, 64), R(40, 64)}}),
    Seq_({IMut("A", u, sg, m) : u \in W3, sg \in Sg2, m \in BOOLEAN}),
    Seq_({IExt("A", u, "u5", P5(sg), e) : u \in {"u1", "u2"}, sg \in Sg2, e \in {Bk(3), Bk(12), Gr(3)}}),
    Seq_({IExt("A", u, "u5", P5(<< u >>), At) : u \in {"u1", "u2", "u3"}}),
    Seq_({IUpdate(<< "A", u, "-", "-", "u5", "SYS" >>, << u, "u5" >>, TRUE, Name2, TRUE, m, TRUE, Bk(8)) : u \in {"u1", "u2"}, m \in BOOLEAN}),
    Seq_({IBuf("A", u, "B", "u5", P5(sg)) : u \in {"u1", "u2"}, sg \in Sg2}),
    Seq_({IRemove(<< "A", u, "-", "u5" >>, sg, t) : u \in {"u1", "u2"}, sg \in Sg2, t \in {T_Bucket, T_Creators}}),
    Seq_({IResize(<< "A", u, "u5", "SYS" >>, P5(sg), tr, 8) : u \in W3, sg \in Sg2, tr \in BOOLEAN}),
    Seq_({I0("Handover", << "A", u, v >>, sg) : u \in {"u1", "u2", "SYS"}, v \in {"u1", "u2", "u3"}, sg \in Sg2 \cup {<< "u1", "u2" >>, << "u1", "u3" >>, << "u2", "u3" >>}}),
    Seq_({I0(op, << "A", u >>, << u >>) : op \in {"Verify", "Unverify", "Lock", "Unlock"}, u \in {"u1", "u2", "u3"}}),
    Seq_({I0(op, << "H", "A", u >>, << u >>) : op \in {"Group", "Ungroup"}, u \in {"u1", "u2"}}),
    Seq_({I0("Transfer", << "A", "u2", "u3", "-" >>, << "u2" >>), IDel("Approve", << "A", "u2", "u3" >>, << "u2" >>, TRUE, << >>),
          I0("Burn", << "A", "u2", "-", "-" >>, << "u2" >>)})
    >>)
=============================================================================
