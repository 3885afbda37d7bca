--------------------------------- MODULE U_mix ---------------------------------
(* Everything at once: assets, groups, buffers and a proxied asset under all   *)
(* instructions. Far too large to enumerate: explored by random behaviours,    *)
(* where every instruction is tried in every state visited.                    *)
EXTENDS Gen

R(n, b) == [j \in 1..n |-> (b + j) % 256]
Cr1 == X(T_Creators, Creator("u1", 0, 60) \o Creator("u2", 1, 40))
Cr2 == X(T_Creators, Creator("u2", 0, 100))
Cr3 == X(T_Creators, Creator("u3", 0, 30) \o Creator("u1", 1, 30) \o Creator("u2", 0, 40))
Gr(m, d) == X(T_Grouping, Grouping(m, d))
Ro1 == X(T_Royalties, Royalties(500, CMatch(2, "x1")))
Ro2 == X(T_Royalties, Royalties(10000, CNot(CAnd(COwnedBy(2, "PX") \o CNot(CMatch(1, "u1"))))))
Ro3 == X(T_Royalties, Royalties(0, CEmpty))
Bk(n) == X(T_Bucket, R(n, 10))
At == X(T_Attributes, << 1, 97, 1, 98 >>)
Li == X(T_Links, << 1, 97, 3, 98, 99, 100 >>)
Bl == X(T_Blob, << 1, 97 >> \o R(8, 50))
Me == X(T_Metadata, << 1, 97, 0, 1, 98 >>)
Pr == X(T_Properties, << 1, 97, 2, 1 >>)
Mg(r) == X(T_Manager, ManagerData("u3", r))
Px(k) == X(T_Proxy, ProxyData("Z", k))

A0(es) == Asset(0, TRUE, "u1", "u1", Name1, es)
As(std, es) == Asset(std, TRUE, "u1", "u1", Name1, es)
ZA == Asset(3, TRUE, "u1", "u1", Name1, << At, Px("u2"), Bk(3) >>)
Inits ==
    {[A |-> a, B |-> NONE, G |-> g, H |-> h, Z |-> z] :
        a \in {NONE, A0(<< >>), A0(<< At, Ro1, Bk(9), Cr1 >>), As(1, << Mg(7), Bl >>), As(2, << Li, Pr >>), As(1, << Ro3, Mg(5) >>)},
        g \in {A0(<< Gr(0, "SYS") >>), A0(<< Bk(3), Gr(2, "u3"), Ro2 >>)},
        h \in {NONE, A0(<< Me, Cr2 >>)},
        z \in {NONE, ZA}}
Small(r) == /\ r.xl < 2000000
            /\ r.k # "none" => /\ Len(r.exts) <= 6 /\ r.len < 700
Bound(s) == \A k \in DOMAIN s : Small(s[k])

ExtSets == << << >>, << At >>, << Cr1, Bk(3) >>, << Bk(9), Gr(2, "u2"), At >>, << Ro1 >>, << Mg(1) >>, << Mg(6), Ro3 >>, << Px("u2"), Bl >>,
              << [t |-> T_Blob, n |-> 10, hd |-> TRUE, d |-> << 1, 97 >>] >> >>
Parts == << X(T_Bucket, << >>), Bk(8), Cr1, [t |-> T_Blob, n |-> 10, hd |-> TRUE, d |-> << 1, 97 >>], [t |-> T_Creators, n |-> 34, hd |-> FALSE, d |-> << >>],
            Ro1, Me, [t |-> T_Grouping, n |-> 48, hd |-> TRUE, d |-> B64(0)], Mg(7), Li >>
Ups == << Bk(0), Bk(3), Bk(12), Bk(40), At, X(T_Attributes, << 1, 97, 20 >> \o R(20, 60)), X(T_Attributes, << 5, 97 >>), Bl, X(T_Blob, << >>), Cr1, Cr2, Cr3,
          X(T_Creators, Creator("u2", 1, 200) \o Creator("u1", 1, 156)), X(T_Creators, Creator("u2", 0, 99)),
          Gr(0, "SYS"), Gr(1, "u3"), X(T_Grouping, B64(7) \o B64(9)), Ro1, Ro2, Ro3, X(T_Royalties, Royalties(10001, CEmpty)), X(T_Royalties, Royalties(1, << 1, 2, 3 >>)),
          Mg(2), X(T_Manager, ManagerData("u2", 7)), Px("u1"), X(T_Proxy, ProxyData("Y", "u1")), Me, Pr, Li,
          [t |-> T_Bucket, n |-> 4, hd |-> TRUE, d |-> << 1 >>], [t |-> T_Bucket, n |-> 0, hd |-> FALSE, d |-> << >>], [t |-> T_Manager, n |-> 0, hd |-> FALSE, d |-> << >>] >>
U12 == {"u1", "u2"}
U123 == {"u1", "u2", "u3"}
Zs(k) == IF k = "Z" THEN << "Z" >> ELSE << >>
K4 == {"A", "G", "H", "Z"}
Instrs == Cat(<<
    Seq_({ICreate(<< k, au, ow, g, ga, "u5", "SYS" >>, << k, "u5" >> \o sg, Name1, s, m, ExtSets[e]) :
        k \in {"A", "H"}, au \in {"u1"}, ow \in {"u2"}, g \in {"-", "G"}, ga \in {"-", "u3"}, sg \in {<< "u1", "u3" >>}, s \in {0, 1}, m \in {TRUE}, e \in {1, 3, 4, 5, 7, 9}}),
    Seq_({ICreate(<< k, au, "u1", "-", "-", "u5", "SYS" >>, << k, "u5" >> \o sg, Name2, s, m, ExtSets[e]) :
        k \in {"A", "B"}, au \in {"u2"}, sg \in {<< >>, << "u2" >>}, s \in {0, 2, 3}, m \in BOOLEAN, e \in {1, 2, 6}}),
    Seq_({ICreate(<< "Z", "u1", "u1", g, "-", "u5", "SYS" >>, sg, Name2, s, TRUE, ExtSets[e]) :
        g \in {"-", "G"}, sg \in {<< "Z", "u5", "u1" >>, << "u1", "u5" >>}, s \in {0, 3}, e \in {1, 8}}),
    Seq_({IAllocate(<< k, "u5", "SYS" >>, << k, "u5" >>, Parts[e]) : k \in {"A", "B"}, e \in 1..Len(Parts)}),
    Seq_({IWrite(<< k, "u5", "SYS" >>, << k, "u5" >>, ow, d) : k \in {"A", "B"}, ow \in BOOLEAN,
          d \in {<< 1, 97 >>, R(8, 50), << >>, Creator("u3", 1, 100), B64(3) \o KB("u2"), R(12, 1)}}),
    Seq_({I0("Close", << k, "u6" >>, << k >>) : k \in {"A", "B", "G", "Z"}}),
    Seq_({I0("Burn", << k, u, to, g >>, << u >> \o Zs(k)) : k \in K4, u \in U123, to \in {"-", "u6"}, g \in {"-", "G"}}),
    Seq_({I0("Burn", << k, "u1", "-", "G" >>, << "u2" >>) : k \in K4}),
    Seq_({IDel("Approve", << k, u, d >>, << u >> \o Zs(k), FALSE, r) : k \in K4, u \in U12, d \in {"u2", "u3"}, r \in {<< 1 >>, << 2, 3 >>}}),
    Seq_({IDel("Approve", << k, u, d >>, << u >> \o Zs(k), TRUE, << >>) : k \in {"A", "Z"}, u \in U12, d \in {"x1", "SYS"}}),
    Seq_({IDel("Approve", << "Z", "u1", "u2" >>, << "u1" >>, TRUE, << >>), IDel("Approve", << "A", "u1", "u2" >>, << >>, TRUE, << >>)}),
    Seq_({IDel("Revoke", << k, u >>, << u >> \o Zs(k), all, r) : k \in K4, u \in U123, all \in BOOLEAN, r \in {<< 1 >>, << 2 >>}}),
    Seq_({I0(op, << k, u >>, << u >> \o Zs(k)) : op \in {"Lock", "Unlock"}, k \in K4, u \in U123}),
    Seq_({I0(op, << k, "u1" >>, << "u2" >>) : op \in {"Lock", "Unlock"}, k \in K4}),
    Seq_({I0("Transfer", << k, u, to, g >>, << u >> \o Zs(k)) : k \in K4, u \in U123 \cup {"x1"}, to \in {"u1", "u2", "x1"}, g \in {"-", "G"}}),
    Seq_({ViaCpi(I0("Transfer", << k, u, to, "G" >>, << u >> \o Zs(k))) : k \in {"A", "Z"}, u \in U12, to \in {"u1", "u2", "x1"}}),
    Seq_({I0("Transfer", << k, "u1", "u2", "G" >>, << >>) : k \in K4}),
    Seq_({I0(op, << k, u >>, << u >> \o Zs(k)) : op \in {"Verify", "Unverify"}, k \in {"A", "H"}, u \in U123}),
    Seq_({I0(op, << "A", "u2" >>, << "u1" >>) : op \in {"Verify", "Unverify"}}),
    Seq_({IExt(k, "u1", "u5", << "u1", "u5" >> \o Zs(k), Ups[e]) : k \in K4, e \in 1..Len(Ups)}),
    Seq_({IExt(k, "u2", "u5", << "u2", "u5" >> \o Zs(k), Ups[e]) : k \in {"A"}, e \in {2, 10}}),
    Seq_({IBuf(k, u, "B", "u5", << u, "u5" >> \o Zs(k)) : k \in K4, u \in U12}),
    Seq_({IName(k, u, << u >> \o Zs(k), n) : k \in {"A", "G", "Z"}, u \in U12, n \in {Name2, << >>}}),
    Seq_({IMut(k, u, << u >> \o Zs(k), m) : k \in {"A", "H"}, u \in {"u1"}, m \in BOOLEAN}),
    Seq_({IRemove(<< k, "u1", "-", to >>, << "u1" >> \o Zs(k), t) : k \in K4, t \in {1, 2, 3, 6, 7, 8, 9, 11}, to \in {"u6"}}),
    Seq_({IRemove(<< k, "u2", "-", "H" >>, << "u2" >> \o Zs(k), t) : k \in {"A", "G"}, t \in {1, 11}}),
    Seq_({IResize(<< k, "u1", "u5", "SYS" >>, << "u1", "u5" >> \o Zs(k), tr, v) : k \in K4, tr \in BOOLEAN, v \in {7, 24}}),
    Seq_({I0(op, << k, g, u >>, << u >> \o Zs(k)) : op \in {"Group", "Ungroup"}, k \in {"A", "H", "Z"}, g \in {"G", "H"}, u \in U123}),
    Seq_({I0("Handover", << k, u, v >>, << u, v >> \o Zs(k)) : k \in {"A", "G"}, u \in U12, v \in U12}),
    Seq_({IFund(k, "u6", 1000000) : k \in {"A", "B"}}),
    << IBad(<< "A", "u1", "u2", "-" >>, << "u1" >>, << 18 >>), IBad(<< "A", "u1" >>, << "u1" >>, << >>) >>
    >>)
=============================================================================
