-------------------------------- MODULE U_grid --------------------------------
(***************************************************************************)
(* One step from a sample of every combination of what can decide who may  *)
(* do what with an asset: standard, mutability, lock, delegate and roles,  *)
(* manager and roles, group and its royalties, royalties of its own, owner *)
(* equal to the authority or not, neighbouring extensions, spare bytes.    *)
(***************************************************************************)
EXTENDS Gen

Stride == IF Deep THEN 11 ELSE 97
\* << standard, manager, its roles >>; standards without a manager are repeated
Std == << << 0, "-", 0 >>, << 2, "-", 0 >>, << 1, "u3", 0 >>, << 1, "u3", 1 >>, << 0, "-", 0 >>, << 1, "u3", 2 >>, << 1, "u3", 4 >>, << 1, "u3", 7 >>,
          << 0, "-", 0 >>, << 1, "u3", 3 >>, << 1, "u3", 6 >>, << 1, "u1", 5 >>, << 1, "u2", 5 >>, << 2, "-", 0 >>, << 1, "u1", 2 >>, << 1, "x1", 7 >> >>
Del == << << "-", 0 >>, << "u2", 1 >>, << "u2", 2 >>, << "u2", 3 >>, << "u2", 4 >>, << "u2", 5 >>, << "u2", 6 >>, << "u2", 7 >>, << "-", 0 >>,
          << "u1", 1 >>, << "u1", 4 >>, << "u3", 1 >>, << "u3", 2 >>, << "u3", 4 >>, << "x1", 1 >>, << "x1", 6 >>, << "u4", 7 >> >>
Ro(c) == << X(T_Royalties, Royalties(500, c)) >>
Roy == << << >>, Ro(CMatch(2, "x1")), Ro(CNot(CEmpty)), << >> >>
Grp(j) == IF j = 1 THEN << X(T_Grouping, Grouping(2, "u3")) >> ELSE << X(T_Grouping, SetGSize(Grouping(2, "u3"), 1)) >> \o Roy[j - 1]
Bk == X(T_Bucket, << 1, 2, 3 >>)
Owners == << "u1", "u1", "x1" >>
Auths == << "u1", "u4" >>
Dims == << Len(Std), 2, 2, Len(Del), 5, 3, 2, 3, 3 >>
RECURSIVE Size_(_)
Size_(j) == IF j = 0 THEN 1 ELSE Dims[j] * Size_(j - 1)
Ix(n, j) == ((n \div Size_(j - 1)) % Dims[j]) + 1
Mk(n) ==
    LET sd == Std[Ix(n, 1)]
        dl == Del[Ix(n, 4)]
        g == Ix(n, 5)
        au == Auths[Ix(n, 7)]
        pos == Ix(n, 8)
        mg == IF sd[1] = 1 THEN << X(T_Manager, ManagerData(sd[2], sd[3])) >> ELSE << >>
        es == (IF pos = 2 THEN << Bk >> ELSE << >>) \o mg \o Roy[Ix(n, 6)] \o (IF pos = 3 THEN << Bk >> ELSE << >>)
        a == Asset(sd[1], Ix(n, 2) = 1, Owners[Ix(n, 9)], au, Name1, es)
    IN [A |-> [a EXCEPT !.st = Ix(n, 3) - 1, !.da = dl[1], !.dr = dl[2], !.group = IF g = 1 THEN "-" ELSE "G"],
        G |-> Asset(0, TRUE, "u5", au, Name1, Grp(g))]
Total == Size_(Len(Dims))
Inits == {Mk((m * Stride + (Seed % Stride)) % Total) : m \in 0..((Total - 1) \div Stride)}
Bound(s) == FALSE

P5 == {"u1", "u2", "u3", "u4", "x1"}
Rl == {<< 1 >>, << 2, 3 >>}
G2 == {"-", "G"}
Instrs == Cat(<<
    Seq_({I0("Transfer", << "A", u, to, g >>, << u >>) : u \in P5, to \in {"u1", "u2", "u5", "x1"}, g \in G2}),
    Seq_({I0("Transfer", << "A", u, "u5", "G" >>, sg) : u \in P5, sg \in {<< >>, << "u4", "u5" >>}}),
    Seq_({ViaCpi(I0("Transfer", << "A", u, to, "G" >>, << u >>)) : u \in {"u1", "u2", "u3"}, to \in {"u5", "x1"}}),
    Seq_({I0("Burn", << "A", u, to, g >>, << u >>) : u \in P5, to \in {"-", "u6"}, g \in G2}),
    Seq_({IDel("Approve", << "A", u, d >>, << u >>, FALSE, r) : u \in P5 \ {"u3"}, d \in {"u2", "u3", "u1"}, r \in Rl}),
    Seq_({IDel("Approve", << "A", u, "u2" >>, << u >>, TRUE, << >>) : u \in P5}),
    Seq_({IDel("Revoke", << "A", u >>, << u >>, FALSE, r) : u \in P5, r \in Rl}),
    Seq_({IDel("Revoke", << "A", u >>, << u >>, TRUE, << >>) : u \in P5}),
    Seq_({I0(op, << "A", u >>, << u >>) : op \in {"Lock", "Unlock"}, u \in P5}),
    Seq_({I0(op, << "A", "G", u >>, << u >>) : op \in {"Group", "Ungroup"}, u \in P5}),
    Seq_({I0("Handover", << "A", u, v >>, << u, v >>) : u \in {"u1", "u4"}, v \in {"u1", "u2"}}),
    Seq_({IName("A", u, << u >>, Name2) : u \in P5}),
    Seq_({IMut("A", u, << u >>, m) : u \in {"u1", "u4"}, m \in BOOLEAN}),
    Seq_({IExt("A", u, "u6", << u, "u6" >>, e) : u \in {"u1", "u2", "u4"},
          e \in {X(T_Bucket, << 1, 2, 3, 4, 5, 6, 7, 8, 9 >>), X(T_Bucket, << >>), X(T_Blob, << 0, 1 >>), X(T_Manager, ManagerData("u2", 1))}}),
    Seq_({IExt("A", u, "u6", << u, "u6" >>, Ro(c)[1]) : u \in {"u1", "u4"}, c \in {CEmpty, CNot(CMatch(2, "x1"))}}),
    Seq_({IRemove(<< "A", u, "-", "u6" >>, << u >>, t) : u \in {"u1", "u2", "u4"}, t \in {T_Bucket, T_Manager, T_Royalties}}),
    Seq_({IResize(<< "A", u, "u6", "SYS" >>, << u, "u6" >>, tr, 8) : u \in {"u1", "u4"}, tr \in BOOLEAN}),
    Seq_({IUpdate(<< "A", u, "-", "G", "u6", "SYS" >>, << u, "u6" >>, TRUE, Name2, FALSE, FALSE, TRUE, X(T_Blob, << 0, 1 >>)) : u \in P5}),
    Seq_({IRemove(<< "A", u, "G", "u6" >>, << u >>, T_Bucket) : u \in P5})
    >>)
=============================================================================
