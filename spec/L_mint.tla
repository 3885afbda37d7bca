-------------------------------- MODULE L_mint --------------------------------
(***************************************************************************)
(* Assets described to the Rust client, whose recipe is executed on the    *)
(* program; and extensions uploaded with the client's CPI macros.          *)
(***************************************************************************)
EXTENDS Wire

R(n, b) == [j \in 1..n |-> (b + j) % 256]
PS(s) == << Len(s) >> \o s
E_(t, d) == [t |-> t, d |-> d]
Str(n) == [j \in 1..n |-> 97 + (j % 26)]
Ex == [t \in 1..11 |->
    CASE t = T_Attributes -> E_(t, PS(Str(2)) \o PS(Str(5)))
      [] t = T_Blob -> E_(t, PS(Str(3)) \o R(9, 200))
      [] t = T_Creators -> E_(t, Creator("u1", 1, 60) \o Creator("u2", 0, 30) \o Creator("u3", 1, 10))
      [] t = T_Links -> E_(t, PS(Str(4)) \o PS(Str(7)))
      [] t = T_Metadata -> E_(t, PS(Str(2)) \o PS(Str(3)) \o PS(Str(1)) \o PS(<< >>))
      [] t = T_Grouping -> E_(t, Grouping(3, "u3"))
      [] t = T_Royalties -> E_(t, Royalties(500, CMatch(2, "u1")))
      [] t = T_Manager -> E_(t, ManagerData("u3", 5))
      [] t = T_Proxy -> E_(t, ProxyData("Z", "u1"))
      [] t = T_Properties -> E_(t, PS(Str(2)) \o << 2, 1 >>)
      [] t = T_Bucket -> E_(t, R(5, 7))]
Small == {Ex[t] : t \in 1..11}
Bk(n) == E_(T_Bucket, R(n, 3))
Bl(n) == E_(T_Blob, PS(Str(4)) \o R(n - 5, 9))
Sizes == {0, 1, 7, 8, 9, 118, 127, 128, 911, 912, 913, 919, 920, 921, 925, 928, 931, 1160, 1162, 1163, 1164, 1168, 1172, 1232, 1280,
          1844, 1845, 1846, 2334, 2335, 2336, 2769, 2770, 2771}
         \cup (IF Deep THEN {913, 914, 3506, 3507, 3508, 3695, 3696, 5000, 9999, 10239, 10240, 10241, 20000} ELSE {6000, 11000})
Edge == {919, 920, 921, 1845, 1846}
Bad == {E_(T_None, << 1 >>), E_(T_None, << >>), E_(T_Creators, Creator("u1", 0, 99)), E_(T_Creators, Creator("u1", 0, 100) \o << 0 >>),
        E_(T_Royalties, Royalties(10001, CEmpty)), E_(T_Grouping, B64(1) \o B64(5) \o KB("SYS")), E_(T_Attributes, << 4, 1 >>), E_(T_Manager, << 1, 2 >>)}
Names_ == {<< >>, Name1, Name2, Str(34), Str(35)}

Mc(p, n, s, m, es) == [k |-> "mint", payer |-> p, name |-> n, std |-> s, mut |-> m, exts |-> es]
Pick(S) == RandomElement(S)
RandE == LET t == Pick(1..4) IN
         IF t = 1 THEN Bk(Pick(0..3000)) ELSE IF t = 2 THEN Bl(Pick(5..2900)) ELSE IF t = 3 THEN Ex[Pick(1..11)]
         ELSE E_(T_Links, LET n == Pick(0..5) IN Cat([j \in 1..(2 * n) |-> PS(Str(60 + ((37 * j) % 180)))]))
Cases ==
    SetToSeq({Mc(p, n, s, m, << >>) : p \in {"-", "u2"}, n \in Names_, s \in 0..3, m \in BOOLEAN})
    \o SetToSeq({Mc(p, Name1, s, TRUE, << e >>) : p \in {"-", "u2"}, s \in 0..3, e \in Small \cup Bad})
    \o SetToSeq({Mc("u2", Name2, s, FALSE, << e, f >>) : s \in 0..1, e \in Small, f \in Small})
    \o SetToSeq({Mc(p, Name1, 0, TRUE, << Bk(n) >>) : p \in {"-", "u2"}, n \in Sizes})
    \o SetToSeq({Mc("u2", Name1, 0, TRUE, << Bl(n), Bk(m) >>) : n \in Edge, m \in Edge})
    \o SetToSeq({Mc("-", Name1, 1, TRUE, << Bk(n), Ex[t], Bl(m) >>) : n \in {3, 920, 921}, t \in {1, 3, 8, 10}, m \in {8, 1846}})
    \o << Mc("u2", Name1, 1, TRUE, [t \in 1..10 |-> Ex[IF t > 8 THEN t + 1 ELSE t]]),
          Mc("u2", Name1, 1, TRUE, [t \in 1..10 |-> Ex[LET u == 11 - t IN IF u > 8 THEN u + 1 ELSE u]]) >>
    \o [j \in 1..(IF Deep THEN 1500 ELSE 60) |-> LET n == Pick(1..4) IN Mc(Pick({"-", "u2"}), Pick(Names_), Pick(0..2), Pick(BOOLEAN), [l \in 1..n |-> RandE])]
Header == [keys |-> KeyBytes]

-----------------------------------------------------------------------------
(* the recipe: allocate and write every extension, then create             *)
Payer(c) == IF c.payer = "-" THEN "u1" ELSE c.payer
Sub(d, a, n) == SubSeq(d, a, Lesser(a + n - 1, Len(d)))
Upload(c, e) ==
    LET p == Payer(c)
        n == Len(e.d)
        k == IF n <= 920 THEN 0 ELSE (n - 920 + 924) \div 925
    IN << IAllocate(<< "A", p, "SYS" >>, << "A", p >>, [t |-> e.t, n |-> n, hd |-> TRUE, d |-> Sub(e.d, 1, 920)]) >>
       \o [j \in 1..k |-> IWrite(<< "A", p, "SYS" >>, << "A", p >>, FALSE, Sub(e.d, 921 + 925 * (j - 1), 925))]
Recipe(c) == Cat([j \in 1..Len(c.exts) |-> Upload(c, c.exts[j])])
             \o << ICreate(<< "A", "u1", "u1", "-", "-", Payer(c), "SYS" >>, << "A", Payer(c) >>, c.name, c.std, c.mut, << >>) >>
RECURSIVE Run(_, _, _)
Run(st, is, j) == IF j > Len(is) THEN [ok |-> TRUE, st |-> st]
                  ELSE LET r == Apply(st, is[j]) IN IF r.ok THEN Run(r.st, is, j + 1) ELSE [ok |-> FALSE, st |-> st]
Minted(c) == Run([A |-> NONE], Recipe(c), 1)

\* the described asset
Distinct(c) == \A i, j \in 1..Len(c.exts) : c.exts[i].t = c.exts[j].t => i = j
Described(c) ==
    [k |-> "asset", st |-> 0, std |-> c.std, mut |-> c.mut, owner |-> "u1", group |-> "-", auth |-> "u1", da |-> "-", dr |-> 0,
     name |-> NameOf(c.name),
     exts |-> [j \in 1..Len(c.exts) |-> [t |-> c.exts[j].t, n |-> Len(c.exts[j].d),
                                         d |-> OnCreate(c.exts[j].t, c.exts[j].d, IF c.payer = "-" THEN "u1" ELSE "-").d]],
     len |-> SpaceOf([j \in 1..Len(c.exts) |-> X(c.exts[j].t, c.exts[j].d)]), xl |-> 0]
Proper(c) == /\ Distinct(c)
             /\ \A j \in 1..Len(c.exts) : c.exts[j].t # T_None /\ OnCreate(c.exts[j].t, c.exts[j].d, "-").ok
             /\ (c.std = 1) <=> \E j \in 1..Len(c.exts) : c.exts[j].t = T_Manager
             /\ c.std # 3 /\ ~ \E j \in 1..Len(c.exts) : c.exts[j].t = T_Proxy
\* in the specification the recipe works exactly for proper descriptions
SpecGood(c) == LET r == Minted(c) IN (r.ok <=> Proper(c)) /\ (r.ok => r.st.A = Described(c))

Fits(c, o) == \A j \in 1..Len(o.metas) :
                  IF o.way = "mint" THEN TxSize(o.metas[j], o.sizes[j], Payer(c)) <= MaxTx
                  ELSE o.way \in {"macro", "macrosigned"} => CpiSize(o.metas[j], o.sizes[j]) <= MaxCpi
\* an invocation passes on the program, every account it names, and the seeds given
SeedsOf(way) == IF way \in {"macrosigned", "datasigned", "baresigned"} THEN << << << 120 >> >> >> ELSE << >>
Invoked(o) ==
    o.way = "mint"
    \/ \A j \in 1..(Len(o.metas) - 1) :
          /\ {"NIFTY"} \cup {o.metas[j][l].k : l \in 1..Len(o.metas[j])} \subseteq {o.infos[j][l] : l \in 1..Len(o.infos[j])}
          /\ o.seeds[j] = SeedsOf(o.way)
\* the bare allocation of every extension, without payer or system program
BareAcc(c, way) == << "A", IF way \in {"baresigned", "nopayer"} THEN "-" ELSE Payer(c), IF way \in {"baresigned", "nosystem"} THEN "-" ELSE "SYS" >>
Bare(c, o) ==
    /\ Len(o.metas) = Len(c.exts) + 1
    /\ \A j \in 1..Len(c.exts) :
          LET e == c.exts[j]
              i == IAllocate(BareAcc(c, o.way), << "A", Payer(c) >>, [t |-> e.t, n |-> Len(e.d), hd |-> TRUE, d |-> e.d])
          IN o.metas[j] = Metas(i) /\ o.datas[j] = Data(i)
OutGood(c, o) ==
    /\ o.ok
    /\ Fits(c, o)
    /\ Invoked(o)
    /\ IF o.way \in {"baresigned", "nopayer", "nosystem"} THEN Bare(c, o)
       ELSE (o.done <=> Proper(c)) /\ (Proper(c) => o.end = Described(c))
Good(c, o) == Len(o.outs) > 0 /\ \A j \in 1..Len(o.outs) : OutGood(c, o.outs[j])
=============================================================================
