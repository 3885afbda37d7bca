-------------------------------- MODULE U_bridge --------------------------------
(* Swapping tokens and bridge assets by every party, with the accounts mixed  *)
(* up in every way, while tokens and assets move otherwise, too.              *)
EXTENDS Gen, Bridge

MD(m, ua, s) == [k |-> "meta", own |-> "TM", ua |-> ua, mint |-> m, name |-> Name2, sym |-> << 83 >>, uri |-> << 117 >>, fee |-> 500,
                 hc |-> FALSE, cr |-> << >>, std |-> s, col |-> "-", cv |-> FALSE, cd |-> FALSE, xl |-> 0]
MintRec(m, s, at) == [k |-> "mint", own |-> MintOf[m].prog, std |-> s, at |-> at, xl |-> 0]
Vlt(m, s) == [k |-> "vault", own |-> "BRIDGE", st |-> s, mint |-> m, len |-> VaultLen, xl |-> 0]
Rule(c) == X(T_Royalties, Royalties(500, c))
G0(es) == Asset(0, TRUE, "u1", "u3", Name1, << X(T_Grouping, SetGSize(Grouping(0, "SYS"), 1)) >> \o es)
\* mint 1 idle in the beginning, with the original at one of its holders
Start(std, at, es, g, es2) ==
    [W1 |-> [Asset(0, TRUE, "V1", "u3", Name1, es) EXCEPT !.group = g], V1 |-> Vlt("M1", 0), M1 |-> MintRec("M1", std, at), D1 |-> MD("M1", "u3", std),
     W2 |-> Asset(0, TRUE, "u1", "u3", Name1, << >>), V2 |-> Vlt("M2", 1), M2 |-> MintRec("M2", 0, "t2v"), D2 |-> MD("M2", "u3", 0),
     D4 |-> [MD("M1", "u3", 0) EXCEPT !.own = "PX"], G |-> IF g = "-" THEN Asset(0, TRUE, "u1", "u3", Name1, << >>) ELSE G0(es2)]
Inits == {Start(0, "t11", << >>, "-", << >>), Start(4, "t11", << >>, "-", << >>),
          Start(0, "t11", << Rule(CMatch2(2, "u1", "V1")) >>, "-", << >>),
          Start(0, "t11", << >>, "G", << >>), Start(0, "t11", << >>, "G", << Rule(COr(COwnedBy(2, "BRIDGE") \o CMatch(2, "u1"))) >>),
          [Start(0, "t11", << >>, "-", << >>) EXCEPT !.M1.own = "PX"], [Start(0, "t11", << >>, "-", << >>) EXCEPT !.D1.own = "PX"],
          [Start(0, "t11", << >>, "-", << >>) EXCEPT !.D1.std = 2],
          [Start(0, "t11", << >>, "-", << >>) EXCEPT !.V1 = NONE, !.W1 = NONE]}
Bound(s) == TRUE

BX(a, v, u, tk, m, d, tr, vt, vr, p, g, sg) ==
    [op |-> "Bridge", via |-> "BRIDGE", sg |-> sg, cpi |-> FALSE,
     acc |-> << a, v, u, tk, m, d, "x1", tr, vt, vr, p, "NIFTY", "TM", "SYS", "SIV", IF m = "M2" THEN "TOKEN22" ELSE "TOKEN", "ATA", "-", "-", g >>]
B1(u, sg, g) == LET tk == CASE u = "u2" -> "t12" [] u = "u3" -> "t13" [] OTHER -> "t11"
                IN BX("W1", "V1", u, tk, "M1", "D1", TokenAcct[tk].rec, "t1v", "r1v", "u5", g, sg)
B2(u, sg) == BX("W2", "V2", u, IF u = "u2" THEN "t22" ELSE "t21", "M2", "D2", "-", "t2v", "-", "u5", "-", sg)
Mv(m, a, b, sg) == [op |-> "Move", via |-> "TM", sg |-> sg, cpi |-> FALSE,
    acc |-> << a, TokenAcct[a].holder, b, TokenAcct[b].holder, m, MintOf[m].meta, "x1", TokenAcct[a].rec, TokenAcct[b].rec, TokenAcct[a].holder,
               "u5", "SYS", "SIV", MintOf[m].prog, "ATA", "-", "-" >>]
Instrs == Cat(<<
    Seq_({B1(u, sg, g) : u \in {"u1", "u2", "u3", "V1"}, sg \in {<< "u1", "u5" >>, << "u2", "u5" >>, << "u3", "u5" >>, << "u1", "u2" >>, << "u5" >>}, g \in {"-", "G"}}),
    Seq_({B2(u, sg) : u \in {"u1", "u2"}, sg \in {<< "u1", "u5" >>, << "u2", "u5" >>, << "u5" >>}}),
    \* one or two accounts mixed up
    Seq_({[B1("u1", << "u1", "u5" >>, "-") EXCEPT !.acc[j] = x] : j \in {1, 2, 3, 4, 5, 6, 8, 9, 10}, x \in {"W1", "W2", "V1", "V2", "M1", "M2", "D1", "D2", "D4", "t11", "t12", "t1v", "t1w", "t2v", "r12", "r1w", "u2", "-"}}),
    Seq_({[B1("u2", << "u1", "u2", "u5" >>, "-") EXCEPT !.acc[4] = x, !.acc[9] = y] : x \in {"t11", "t12", "t1w", "t1v"}, y \in {"t11", "t12", "t1w", "t1v"}}),
    Seq_({[B1("u1", << "u1", "u5" >>, "-") EXCEPT !.acc[1] = a, !.acc[2] = v, !.acc[5] = m, !.acc[6] = d] : a \in {"W1", "W2"}, v \in {"V1", "V2"}, m \in {"M1", "M2"}, d \in {"D1", "D2", "D4"}}),
    Seq_({[B1("u1", << "u1", "u5" >>, "-") EXCEPT !.acc[j] = x] : j \in 11..17, x \in {"PX", "SYS", "u4", "-", "TOKEN22"}}),
    \* the token and the asset move otherwise
    Seq_({Mv("M1", a, b, sg) : a \in {"t11", "t12", "t1v"}, b \in {"t11", "t12", "t1v"}, sg \in {<< "u1", "u5" >>, << "u2", "u5" >>}}),
    Seq_({I0("Transfer", << "W1", u, to, g >>, << u >>) : u \in {"u1", "u2", "u3"}, to \in {"u1", "u2", "V1"}, g \in {"-", "G"}}),
    Seq_({I0("Transfer", << "W1", "V1", to, "-" >>, << "u1", "u5" >>) : to \in {"u1", "V1"}}),
    Seq_({IDel("Approve", << "W1", u, "u3" >>, << "u1", "u2" >>, FALSE, << r >>) : u \in {"u1", "V1"}, r \in {1, 2}}),
    Seq_({I0(op, << "W1", u >>, << u >>) : op \in {"Lock", "Unlock"}, u \in {"u1"}}),
    Seq_({I0("Transfer", << "W2", u, to, "-" >>, << u >>) : u \in {"u1", "u2"}, to \in {"u1", "u2"}}),
    Seq_({Mv("M2", a, b, << "u1", "u2", "u5" >>) : a \in {"t21", "t2v"}, b \in {"t22", "t2v"}}),
    Seq_({I0(op, << "W1", "G", "u3" >>, << "u3" >>) : op \in {"Group", "Ungroup"}}),
    << IMut("W1", "u3", << "u3" >>, FALSE), I0("Revoke", << "W1", "u3" >>, << "u3" >>) @@ [all |-> TRUE, roles |-> << >>],
       [op |-> "BCreate", via |-> "BRIDGE", acc |-> << "W1", "V1", "M1", "D1", "u3", "-", "u5", "SYS", "NIFTY" >>, sg |-> << "u3", "u5" >>, cpi |-> FALSE, col |-> FALSE],
       I0("Burn", << "W1", "u1", "-", "G" >>, << "u1" >>) >>
    >>)
=============================================================================
