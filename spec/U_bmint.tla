-------------------------------- MODULE U_bmint --------------------------------
(* Creating bridge assets: every kind of metadata, the authority rules, every  *)
(* account substituted, repeated creation.                                     *)
EXTENDS Gen, Bridge

Txt(n) == [j \in 1..n |-> 97 + (j % 26)]
Padded(s, n) == [j \in 1..n |-> IF j <= Len(s) THEN s[j] ELSE 0]
Cr(a, v, s) == [a |-> a, v |-> v, s |-> s]
BM(m, ua) == [k |-> "meta", own |-> "TM", ua |-> ua, mint |-> m, name |-> Name2, sym |-> << 83, 89 >>, uri |-> << 117 >>, fee |-> 500,
              hc |-> TRUE, cr |-> << Cr("u1", 1, 40), Cr("u3", 1, 60) >>, std |-> 0, col |-> "-", cv |-> FALSE, cd |-> FALSE, xl |-> 0]
Base == BM("M1", "u1")
\* single deviations from the base
Metas1 == UNION {
    {[Base EXCEPT !.std = s, !.cd = c] : s \in {0, 1, 2, 3, 4, 5, 9}, c \in BOOLEAN},
    {[Base EXCEPT !.col = c, !.cv = v, !.ua = ua] : c \in {"-", "M2", "M3", "x1"}, v \in BOOLEAN, ua \in {"u1", "u2"}},
    {[Base EXCEPT !.name = n] : n \in {<< >>, Txt(32), Padded(Name2, 32), Txt(35), Txt(36), Txt(40)}},
    {[Base EXCEPT !.sym = n] : n \in {<< >>, Txt(10), Padded(<< 83 >>, 10)}},
    {[Base EXCEPT !.uri = n] : n \in {<< >>, Txt(7), Txt(200), Padded(Txt(30), 200)}},
    {[Base EXCEPT !.fee = f, !.std = 4, !.cd = TRUE] : f \in {0, 1, 256, 9999, 10000}},
    {[Base EXCEPT !.hc = FALSE, !.cr = << >>]},
    {[Base EXCEPT !.cr = c] : c \in {<< Cr("u1", 1, 100) >>, << Cr("u2", 0, 100) >>, << Cr("u1", 0, 0), Cr("u2", 1, 100) >>,
        << Cr("u1", 0, 50), Cr("u1", 1, 50) >>, << Cr("u1", 1, 50), Cr("u2", 1, 49) >>,
        << Cr("u1", 1, 20), Cr("u2", 0, 20), Cr("u3", 1, 20), Cr("u4", 0, 20), Cr("u5", 1, 20) >>}},
    {[Base EXCEPT !.own = o, !.mint = m] : o \in {"TM", "PX"}, m \in {"M1", "M2", "M3"}}}
\* the collection on the bridge, in several conditions
W2(k) == CASE k = "no" -> NONE
           [] k = "buf" -> [k |-> "buf", exts |-> << >>, len |-> HDR, xl |-> 0]
           [] OTHER -> Asset(0, TRUE, IF k = "idle" THEN "V2" ELSE "u1", "u2", Name1, << X(T_Grouping, Grouping(0, "SYS")) >>)
V2(k) == IF k \in {"idle", "active"}
         THEN [k |-> "vault", own |-> "BRIDGE", st |-> IF k = "idle" THEN 0 ELSE 1, mint |-> "M2", len |-> VaultLen, xl |-> 0] ELSE NONE
MintRec(m, s, at) == [k |-> "mint", own |-> MintOf[m].prog, std |-> s, at |-> at, xl |-> 0]
World(d1, c) == [W1 |-> NONE, V1 |-> NONE, W2 |-> W2(c), V2 |-> V2(c), W3 |-> NONE, V3 |-> NONE,
                 M1 |-> MintRec("M1", 0, "t11"), M2 |-> MintRec("M2", 0, IF c = "active" THEN "t2v" ELSE "t21"), M3 |-> MintRec("M3", 0, "t31"),
                 D1 |-> d1, D2 |-> [BM("M2", "u2") EXCEPT !.cd = TRUE, !.std = 4], D3 |-> BM("M3", "u1"),
                 D4 |-> [BM("M1", "u3") EXCEPT !.own = "PX"], A |-> Asset(0, TRUE, "u1", "u1", Name1, << >>)]
Inits == UNION {{World(d, "no") : d \in Metas1},
                {World([Base EXCEPT !.col = "M2", !.cv = v, !.ua = ua], c) : v \in BOOLEAN, ua \in {"u1", "u2"}, c \in {"no", "buf", "idle", "active"}},
                {[World(Base, "no") EXCEPT ![k].xl = 1000000] : k \in {"V1", "W1"}}}
\* one creation, and whatever the bridge asset allows then
Created(s) == Cardinality({k \in {"V1", "V2", "V3"} : s[k].k = "vault"})
Bound(s) == Created(s) <= 2

C(a, v, m, d, ua, c, p, sg, col) == [op |-> "BCreate", via |-> "BRIDGE", acc |-> << a, v, m, d, ua, c, p, "SYS", "NIFTY" >>, sg |-> sg, cpi |-> FALSE, col |-> col]
Good(ua, c, sg, col) == C("W1", "V1", "M1", "D1", ua, c, "u5", sg, col)
Sigs == {<< "u5" >>, << "u1", "u5" >>, << "u2", "u5" >>, << "u3", "u5" >>, << "u1", "u2" >>}
Instrs == Cat(<<
    Seq_({Good(ua, c, sg, col) : ua \in {"u1", "u2", "u3"}, c \in {"-", "W2", "W1", "A"}, sg \in Sigs, col \in BOOLEAN}),
    \* every account replaced by another one
    Seq_({C(a, v, m, d, "u1", "-", "u5", << "u1", "u5" >>, FALSE) : a \in {"W1", "W2"}, v \in {"V1", "V2"}, m \in {"M1", "M2"}, d \in {"D1", "D2", "D4"}}),
    Seq_({C("W2", "V2", "M2", "D2", ua, c, "u5", sg, FALSE) : ua \in {"u1", "u2"}, c \in {"-", "W1"}, sg \in {<< "u5" >>, << "u2", "u5" >>}}),
    Seq_({C("W3", "V3", m, d, "u1", "-", "u5", << "u1", "u5" >>, FALSE) : m \in {"M3", "M1"}, d \in {"D1", "D3"}}),
    Seq_({[Good("u1", "-", << "u1", "u5" >>, FALSE) EXCEPT !.acc[j] = x] : j \in {1, 2, 3, 4, 5, 7, 8, 9}, x \in {"A", "x1", "PX", "-", "u4"}}),
    << Good("u5", "-", << "u5" >>, FALSE), [Good("u1", "-", << "u1" >>, FALSE) EXCEPT !.acc[7] = "u1"],
       [Good("u1", "-", << "u1", "x1" >>, FALSE) EXCEPT !.acc[7] = "x1"], [Good("u1", "-", << "u1" >>, FALSE) EXCEPT !.acc[7] = "u4"],
       I0("Burn", << "W1", "u1", "-", "-" >>, << "u1" >>), I0("Transfer", << "W1", "u1", "u2", "-" >>, << "u1" >>),
       I0("Burn", << "W2", "u1", "-", "-" >>, << "u1" >>), I0("Close", << "W1", "u6" >>, << >>),
       IName("W1", "u1", << "u1" >>, Name1), I0("Verify", << "W1", "u3" >>, << "u3" >>),
       IAllocate(<< "W1", "u5", "SYS" >>, << "u5" >>, X(T_Bucket, << 1 >>)),
       [IBad(<< "W1", "V1", "M1" >>, << "u1" >>, << 2 >>) EXCEPT !.op = "Bad"] >>
    >>)
=============================================================================
