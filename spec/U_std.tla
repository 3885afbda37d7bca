--------------------------------- MODULE U_std ---------------------------------
(* Standards and their extensions; the signature gate of proxied assets.       *)
EXTENDS Gen

Mg(k, r) == X(T_Manager, ManagerData(k, r))
Px(z, k) == X(T_Proxy, ProxyData(z, k))
BadProxy == [t |-> T_Proxy, n |-> 97, hd |-> TRUE, d |-> [ProxyData("Z", "u2") EXCEPT ![65] = (@ + 255) % 256]]
ShortProxy == [t |-> T_Proxy, n |-> 96, hd |-> TRUE, d |-> SubSeq(ProxyData("Z", "u2"), 1, 96)]
Bk == X(T_Bucket, << 1, 2, 3 >>)
ZAsset(es) == Asset(3, TRUE, "u1", "u1", Name1, es)
Gr == X(T_Grouping, Grouping(0, "SYS"))
Inits == {[A |-> NONE, G |-> Asset(0, TRUE, "u1", "u1", Name1, << Gr >>), Z |-> NONE]}
    \cup {[A |-> Asset(1, TRUE, "u1", "u1", Name1, es), G |-> NONE, Z |-> NONE] :
            es \in {<< Mg("u3", 3) >>, << Bk, Mg("u3", 7) >>}}
    \cup {[A |-> NONE, G |-> Asset(0, TRUE, "u1", "u1", Name1, << Gr >>), Z |-> z] :
            z \in {ZAsset(<< Px("Z", "u2") >>), ZAsset(<< Bk, Px("Z", "u2"), X(T_Creators, Creator("u1", 0, 100)), Gr >>)}}
    \cup {[A |-> Asset(s, TRUE, "u1", "u1", Name1, << Bk >>), G |-> NONE, Z |-> NONE] : s \in {0, 2}}
\* how far a slot has moved from a fresh asset
Wt(r) == IF r.k = "none" THEN 0 ELSE IF r.k = "buf" THEN Len(r.exts)
         ELSE (IF r.owner # "u1" THEN 1 ELSE 0) + (IF r.da # "-" THEN 1 ELSE 0) + r.st + (IF r.group # "-" THEN 1 ELSE 0)
              + (IF r.auth # "u1" THEN 1 ELSE 0) + (IF r.name # Name1 THEN 1 ELSE 0) + (IF ~ r.mut THEN 1 ELSE 0)
              + (IF r.len > EndOf(r.exts) THEN 1 ELSE 0)
Bound(s) == /\ Deep \/ s.A.k = "none" \/ s.Z.k = "none"
            /\ \A k \in DOMAIN s : s[k].xl = 0
            /\ Wt(s.A) + Wt(s.Z) + Wt(s.G) <= 2
            /\ s.A.k # "none" => s.A.len <= 260
            /\ s.Z.k # "none" => s.Z.len <= 460

ES == << << >>, << Mg("u3", 3) >>, << Px("Z", "u2") >>, << Mg("u3", 3), Px("Z", "u2") >>, << Px("Y", "u2") >>, << BadProxy >>, << ShortProxy >>,
         << Bk, Px("Z", "SYS") >>, << X(T_Manager, SubSeq(ManagerData("u3", 1), 1, 32)) >>, << X(T_Manager, << >>) >>, << X(T_Proxy, << >>) >> >>
ZS == {<< >>, << "Z" >>}
Instrs == Cat(<<
    Seq_({ICreate(<< k, "u1", "u1", "-", "-", "u5", "SYS" >>, << k, "u5", "u1" >>, Name1, s, TRUE, ES[e]) : k \in {"A", "Z"}, s \in 0..3, e \in 1..Len(ES)}),
    Seq_({ICreate(<< k, au, ow, "-", "-", "u5", "SYS" >>, << k, "u5" >>, Name2, s, m, ES[e]) :
          k \in {"A"}, au \in {"u2"}, ow \in {"u3"}, s \in 0..3, m \in BOOLEAN, e \in {1, 2, 3}}),
    Seq_({ICreate(<< k, "u1", "u1", "G", a, "u5", "SYS" >>, << k, "u5", "u1" >>, Name1, s, TRUE, ES[e]) : k \in {"A", "Z"}, a \in {"u1"}, s \in {1, 3}, e \in {1, 2, 3, 5, 6}}),
    Seq_({ICreate(<< "Z", "u1", "u1", "-", "-", "u5", "SYS" >>, << "u5", "u1" >>, Name1, 3, TRUE, ES[3])}),
    Seq_({IAllocate(<< k, "u5", "SYS" >>, << k, "u5" >>, e) : k \in {"A", "Z"}, e \in {Mg("u3", 3), Px("Z", "u2"), Px("Y", "u2")}}),
    Seq_({IExt(k, "u1", "u5", << "u1", "u5" >> \o z, e) : k \in {"A", "Z"}, z \in ZS,
          e \in {Mg("u2", 7), X(T_Manager, << >>), [t |-> T_Manager, n |-> 0, hd |-> FALSE, d |-> << >>], Px("Z", "u3"), Px("Y", "u3"), BadProxy, ShortProxy,
                 [t |-> T_Proxy, n |-> 0, hd |-> FALSE, d |-> << >>], Bk}}),
    Seq_({IRemove(<< k, "u1", "-", "u6" >>, << "u1" >> \o z, t) : k \in {"A", "Z"}, z \in ZS, t \in {T_Manager, T_Proxy, T_Bucket}}),
    Seq_({I0(op, << "Z", u >>, << u >> \o z) : op \in {"Lock", "Unlock", "Verify", "Unverify"}, u \in {"u1", "u3"}, z \in ZS}),
    Seq_({I0(op, << "A", u >>, << u >>) : op \in {"Lock", "Unlock"}, u \in {"u1", "u3"}}),
    Seq_({I0("Transfer", << k, u, to, "-" >>, << u >> \o z) : k \in {"A", "Z"}, u \in {"u1", "u3", "Z"}, to \in {"u1", "u2"}, z \in ZS}),
    Seq_({ViaCpi(I0("Transfer", << "Z", u, to, "-" >>, << u >> \o z)) : u \in {"u1", "Z"}, to \in {"u1", "u2"}, z \in ZS}),
    Seq_({I0("Burn", << k, u, "u6", "-" >>, << u >> \o z) : k \in {"A", "Z"}, u \in {"u1", "u3"}, z \in ZS}),
    Seq_({IDel("Approve", << k, "u1", "u3" >>, << "u1" >> \o z, TRUE, << >>) : k \in {"A", "Z"}, z \in ZS}),
    Seq_({IDel("Revoke", << k, "u1" >>, << "u1" >> \o z, TRUE, << >>) : k \in {"A", "Z"}, z \in ZS}),
    Seq_({I0("Handover", << k, "u1", "u2" >>, << "u1", "u2" >> \o z) : k \in {"A", "Z"}, z \in ZS}),
    Seq_({IResize(<< k, "u1", "u5", "SYS" >>, << "u1", "u5" >> \o z, FALSE, 8) : k \in {"A", "Z"}, z \in ZS}),
    Seq_({I0(op, << k, g, "u1" >>, << "u1" >> \o z) : op \in {"Group", "Ungroup"}, k \in {"A", "Z"}, g \in {"G", "Z"}, z \in ZS}),
    Seq_({IName(k, u, << u >> \o z, Name2) : k \in {"A", "Z"}, u \in {"u1", "u3"}, z \in ZS}),
    Seq_({IMut("Z", "u1", << "u1" >> \o z, FALSE) : z \in ZS}),
    Seq_({I0("Close", << k, "u6" >>, << k >>) : k \in {"A", "Z"}}),
    Seq_({IWrite(<< "Z", "u5", "SYS" >>, << "u5" >> \o z, FALSE, << 1 >>) : z \in ZS})
    >>)
=============================================================================
