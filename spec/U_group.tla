-------------------------------- MODULE U_group --------------------------------
(* Two potential members, two potential groups, nested and foreign groups,  *)
(* group delegates, maximum sizes, creation into a group, burning.          *)
EXTENDS Gen

Gr(m, d) == << X(T_Grouping, Grouping(m, d)) >>
Gr16 == B64(0) \o B64(0)                  \* without a delegate
Grp(m, d) == Asset(0, TRUE, "u4", "u1", Name1, Gr(m, d))
Inits ==
    {[A |-> Asset(0, TRUE, "u4", "u1", Name1, << >>), B |-> b, G |-> g, H |-> h] :
       b \in {NONE, Asset(0, TRUE, "u4", "u1", Name1, << >>)},
       g \in {Grp(m, d) : m \in (IF Deep THEN {0, 1, 2} ELSE {1}), d \in {"SYS", "u3"}},
       h \in {Asset(0, TRUE, "u4", "u2", Name1, Gr(1, "u3")), Asset(0, TRUE, "u4", "u1", Name1, << >>)}}
     \cup {[A |-> Asset(0, TRUE, "u4", "u1", Name1, << >>), B |-> NONE,
             G |-> Asset(0, TRUE, "u4", "u1", Name1, << X(T_Bucket, << 1, 2, 3 >>) >> \o Gr(2, "u3") \o << X(T_Blob, << 0 >>) >>), H |-> NONE]}
\* at most two structural changes of the groups themselves
Odd_(s, k, M, D) == IF ~ IsAsset(s, k) \/ ~ HasExt(s[k], T_Grouping) THEN 0
                    ELSE LET d == ExtData(s[k], T_Grouping) IN
                         IF GMax(d) \in M /\ GDelegate(d) \in D /\ Len(d) = 48 THEN 0 ELSE 1
Weight(s) == (IF IsAsset(s, "G") /\ s.G.auth = "u1" THEN 0 ELSE 1)
           + (IF IsAsset(s, "A") /\ s.A.auth = "u1" THEN 0 ELSE 1)
           + (IF IsAsset(s, "H") THEN 0 ELSE 1)
           + Odd_(s, "G", {1, 2}, {"SYS", "u3"}) + Odd_(s, "H", {1}, {"SYS", "u3"})
Bound(s) == Weight(s) <= (IF Deep THEN 3 ELSE 1) /\ \A k \in DOMAIN s : s[k].xl = 0

S2 == {<< "u1" >>, << "u2" >>, << "u3" >>, << >>}
Pairs == {<< "A", "G" >>, << "B", "G" >>, << "A", "H" >>, << "G", "H" >>, << "H", "G" >>, << "B", "A" >>, << "A", "A" >>,
          << "G", "G" >>, << "A", "F1" >>, << "A", "u1" >>, << "F1", "G" >>}
NewB(g, ga, sg, auth) == ICreate(<< "B", auth, "u4", g, ga, "u5", "SYS" >>, sg, Name2, 0, TRUE, << >>)
Up(k, u, sg, d) == IExt(k, u, "u5", sg, X(T_Grouping, d))
Instrs == Cat(<<
    Seq_({I0(op, << p[1], p[2], u >>, sg) : op \in {"Group", "Ungroup"}, p \in Pairs, u \in {"u1", "u2", "u3"}, sg \in S2 \cup {<< "u1", "u3" >>}}),
    Seq_({I0("Group", << p[1], p[2], "SYS" >>, sg) : p \in {<< "A", "G" >>, << "A", "H" >>}, sg \in {<< >>, << "u1" >>}}),
    Seq_({I0("Burn", << k, "u4", "-", g >>, sg) : k \in {"A", "B", "G", "H"}, g \in {"-", "G", "H", "A", "F1"}, sg \in {<< "u4" >>, << >>}}),
    Seq_({NewB(g, ga, << "B", "u5" >> \o sg, auth) : g \in {"-", "G", "H", "B", "F1"}, ga \in {"-", "u1", "u3"}, sg \in {<< >>, << "u1" >>, << "u3" >>}, auth \in {"u1", "u2"}}),
    Seq_({Up(k, u, << u, "u5" >>, d) : k \in {"G", "H"}, u \in {"u1"},
          d \in {Grouping(0, "SYS"), Grouping(1, "u2"), Grouping(2, "u3"), SetGSize(Grouping(2, "u3"), 1), SetGSize(Grouping(0, "SYS"), 2), Gr16}}),
    Seq_({IRemove(<< k, u, "-", "u5" >>, << u >>, t) : k \in {"G", "H"}, u \in {"u1"}, t \in {T_Grouping}}),
    Seq_({I0("Handover", << k, u, v >>, << u, v >>) : k \in {"A", "G"}, u \in {"u1", "u2"}, v \in {"u1", "u2"}})
    >>)
=============================================================================
