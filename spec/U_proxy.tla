-------------------------------- MODULE U_proxy --------------------------------
(* Proxied assets through the proxy program: creation, interception and        *)
(* forwarding, with every combination of signatures that matters.              *)
EXTENDS Gen, Proxy

V(i) == [f \in DOMAIN i \cup {"via"} |-> IF f = "via" THEN "PROXY" ELSE i[f]]
\* forwarded: the asset program comes last
F(i) == V([i EXCEPT !.acc = Append(@, "NIFTY")])
P(acc, sg, name) == [op |-> "PCreate", via |-> "PROXY", acc |-> acc, sg |-> sg, cpi |-> FALSE, name |-> name]

ZA(owner, pa) == [Asset(3, TRUE, owner, "Z", Name1,
                     << InX(T_Attributes, CounterData(0)), InX(T_Properties, StampData), InX(T_Proxy, ProxyData("Z", pa)) >>)
                  EXCEPT !.exts = Append(@, Img), !.len = @ + 16 + Pad8(ImgLen)]
GA(d) == Asset(0, TRUE, "u1", "Z", Name1, << X(T_Grouping, Grouping(0, d)) >>)
BB == [k |-> "buf", exts |-> << [t |-> T_Proxy, n |-> 97, d |-> ProxyData("Z", "u1")] >>, len |-> HDR + EXT + Pad8(97), xl |-> 0]
Inits == {[Z |-> z, G |-> g, B |-> b] :
            z \in {NONE, ZA("u1", "u2"), [ZA("u1", "SYS") EXCEPT !.da = "u3", !.dr = 3], [ZA("Z", "Z") EXCEPT !.da = "Z", !.dr = 7]},
            g \in {GA("u3")},
            b \in IF Deep THEN {NONE, BB} ELSE {BB}}
Bound(s) == /\ s["Z"].k = "asset" => Counter(s["Z"]) <= (IF Deep THEN 3 ELSE 1)
            /\ \A k \in DOMAIN s : s[k].xl < 2000000

Us == {"u1", "u2", "u3", "Z"}
\* signature sets: the one asked for, or somebody else
Sgs(u) == IF u = "Z" THEN {<< "u1" >>, << "u2" >>} ELSE {<< u >>, << "u4" >>}
Instrs == Cat(<<
    Seq_({P(<< k, s, o, a, "u5", "SYS", "NIFTY" >>, sg, n) : k \in {"Z", "B"}, s \in {"k1", "k2"}, o \in {"u1", "u2"}, a \in {"u2", "u3"},
          sg \in {<< "k1", "k2", "u2", "u5" >>, << "k1", "u5" >>, << "u2", "u3", "u5" >>, << "k1", "k2", "u2" >>}, n \in {Name2}}),
    << P(<< "Z", "k1", "u1", "u2", "-", "SYS", "NIFTY" >>, << "k1", "u2", "u5" >>, Name1), P(<< "Z", "k1", "u1", "u2", "u5", "-", "NIFTY" >>, << "k1", "u2", "u5" >>, Name1),
       P(<< "Z", "k1", "u1", "u2", "u5", "SYS", "PX" >>, << "k1", "u2", "u5" >>, Name1), P(<< "Z", "k1", "k1", "k1", "u5", "SYS", "NIFTY" >>, << "k1", "u5" >>, << >>) >>,
    Cat([u \in 1..4 |-> LET w == << "u1", "u2", "u3", "Z" >>[u] IN Cat(<<
        Seq_({F(I0("Transfer", << k, w, to, g >>, sg)) : k \in {"Z"}, to \in {"u1", "u2", "Z"}, g \in {"-"}, sg \in Sgs(w)}),
        Seq_({F(I0("Transfer", << k, w, "u2", g >>, sg)) : k \in {"Z", "B", "G"}, g \in {"G"}, sg \in {<< "u1", "B", "G" >>, << "u2" >>}}),
        Seq_({F(I0(op, << k, w >>, sg)) : op \in {"Lock", "Unlock", "Verify"}, k \in {"Z"}, sg \in Sgs(w)}),
        Seq_({F(I0("Burn", << "Z", w, to, g >>, sg)) : to \in {"-", "u6"}, g \in {"-", "G"}, sg \in Sgs(w)}),
        Seq_({F(IDel("Approve", << "Z", w, d >>, sg, all, r)) : d \in {"u2", "u3", "Z"}, all \in {FALSE}, r \in {<< 1 >>, << 2, 3 >>}, sg \in Sgs(w)}),
        Seq_({F(IDel("Revoke", << "Z", w >>, sg, all, r)) : all \in BOOLEAN, r \in {<< 2 >>}, sg \in Sgs(w)}),
        Seq_({F(I0(op, << "Z", "G", w >>, sg)) : op \in {"Group", "Ungroup"}, sg \in Sgs(w)}),
        Seq_({F(I0("Handover", << "Z", w, v >>, sg)) : v \in {"u1", "Z"}, sg \in Sgs(w)}),
        Seq_({F(IRemove(<< "Z", w, "-", "u6" >>, sg, t)) : t \in {1, 2, 9}, sg \in Sgs(w)}),
        Seq_({F(IResize(<< "Z", w, "u5", "SYS" >>, Append(sg, "u5"), FALSE, 8)) : sg \in Sgs(w)}),
        Seq_({F([IName("Z", w, sg, n) EXCEPT !.acc = << "Z", w, "-", "-", "-", "-" >>]) : n \in {Name2, << >>}, sg \in Sgs(w)}),
        Seq_({F(IMut("Z", w, sg, m)) : m \in BOOLEAN, sg \in Sgs(w)}),
        Seq_({F(IExt("Z", w, "u5", Append(sg, "u5"), e)) : e \in {X(T_Bucket, << 1 >>), X(T_Proxy, ProxyData("Z", "u1"))}, sg \in Sgs(w)}),
        Seq_({F(IUpdate(<< "Z", w, "B", "-", "u5", "SYS" >>, Append(sg, "u5"), TRUE, Name2, FALSE, FALSE, FALSE, NoExt)) : sg \in Sgs(w)})
        >>)]),
    \* without the asset program, or with another one in its place
    << V([I0("Transfer", << "Z", "u1", "u2", "-", "PX" >>, << "u1" >>) EXCEPT !.cpi = FALSE]), V(I0("Lock", << "Z", "u1", "PX" >>, << "u1" >>)),
       V([IName("Z", "u2", << "u2" >>, Name2) EXCEPT !.acc = << "Z", "u2", "-", "-", "-", "-", "PX" >>]) >>,
    \* accounts that sign for themselves
    Seq_({F(I0("Close", << k, "u6" >>, sg)) : k \in {"Z", "B", "G"}, sg \in {<< >>, << "B", "G" >>}}),
    Seq_({F(IAllocate(<< k, "u5", "SYS" >>, sg \o << "u5" >>, X(T_Bucket, << 1, 2 >>))) : k \in {"B", "Z"}, sg \in {<< >>, << "B" >>}}),
    Seq_({F(ICreate(<< k, "u1", "u1", "-", "-", "u5", "SYS" >>, sg \o << "u5" >>, Name1, s, TRUE, << >>)) : k \in {"B", "Z"}, s \in {0, 3}, sg \in {<< >>, << "B" >>}}),
    \* the asset program, directly
    Seq_({I0("Transfer", << "Z", u, "u2", "-" >>, << u >>) : u \in {"u1", "u2", "u3"}}),
    Seq_({I0(op, << "Z", u >>, << u >>) : op \in {"Lock", "Unlock"}, u \in {"u1", "u3"}}),
    << I0("Burn", << "Z", "u1", "-", "-" >>, << "u1" >>), IName("Z", "u2", << "u2" >>, Name2), IDel("Approve", << "Z", "u1", "u2" >>, << "u1" >>, TRUE, << >>),
       I0("Group", << "Z", "G", "u3" >>, << "u3" >>), ICreate(<< "Z", "u1", "u1", "-", "-", "u5", "SYS" >>, << "u1", "u5" >>, Name1, 0, TRUE, << >>),
       IFund("Z", "u6", 1000000), V(IBad(<< "Z", "u1", "NIFTY" >>, << "u1" >>, << 18 >>)), V(IBad(<< "Z", "u1", "NIFTY" >>, << "u1" >>, << >>)) >>
    >>)
=============================================================================
