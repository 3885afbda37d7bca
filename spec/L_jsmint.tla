------------------------------- MODULE L_jsmint -------------------------------
(***************************************************************************)
(* Assets described to the JavaScript client, and updates of them: what it *)
(* makes of a description is executed on the programs.  The identity of    *)
(* its context is u1 (authority and owner), the payer u2; the buffer of an *)
(* update is B.                                                            *)
(***************************************************************************)
EXTENDS Wire

E == INSTANCE Contents
Str(n) == [j \in 1..n |-> 97 + (j % 26)]
Xc(t) == [t |-> t, c |-> E!Sample[t]]
Small == {Xc(t) : t \in 1..11} \cup {[t |-> T_Creators, c |-> << E!CrU("u1", 1, 60), E!CrU("u2", 1, 40) >>], [t |-> T_Grouping, c |-> [max |-> << >>, del |-> << >>]],
                                    [t |-> T_Attributes, c |-> << >>], [t |-> T_Blob, c |-> [ct |-> << >>, data |-> << >>]]}
Bad == {[t |-> T_Creators, c |-> << E!CrU("u1", 0, 99) >>], [t |-> T_Royalties, c |-> [bp |-> B64(10001), tree |-> E!TEmpty]]}
Bk(n) == [t |-> T_Bucket, c |-> [data |-> [j \in 1..n |-> (j * 7 + 3) % 256]]]
Bl(n) == [t |-> T_Blob, c |-> [ct |-> Str(4), data |-> [j \in 1..(n - 5) |-> (j * 5) % 256]]]
Lk(n) == [t |-> T_Links, c |-> [j \in 1..n |-> E!Pair(Str(40 + ((37 * j) % 60)), E!Str2(50 + ((31 * j) % 100)))]]
Props(n) == [t |-> T_Properties, c |-> [j \in 1..n |-> E!Pr(Str(20 + j), j % 3, IF j % 3 = 0 THEN Str(60 + j) ELSE IF j % 3 = 1 THEN B64(j) ELSE << 1 >>)]]
Wide(n) == [t |-> T_Royalties, c |-> [bp |-> B64(5), tree |-> E!TMatch(2, [j \in 1..n |-> IF j % 2 = 0 THEN "u1" ELSE "PX"])]]
Sizes == {0, 1, 7, 8, 9, 120, 849, 850, 851, 852, 856, 1000, 1100, 1150, 1699, 1700, 1701, 2549, 2550, 2551, 4000}
         \cup (IF Deep THEN {3399, 3400, 3401, 5000, 9999, 10239, 10240, 10241, 12000} ELSE {11000})
Names_ == {<< >>, Name1, Str(35), << 195, 169, 240, 159, 152, 128 >>}
\* given to whom, under which authority (signing or not), into which group; with standard and mutability left out
Mx(n, s, m, es, ow, au, sg, gr, ga, dfl) == [k |-> "mint", name |-> n, std |-> s, mut |-> m, exts |-> es, ow |-> ow, au |-> au, sg |-> sg, gr |-> gr, ga |-> ga, dfl |-> dfl]
Mc(n, s, m, es) == Mx(n, s, m, es, "u1", "u1", TRUE, "-", "-", FALSE)
Up(hn, hm, m, x) == [hn |-> hn, name |-> IF hn THEN Name2 ELSE << >>, hm |-> hm, mut |-> hm /\ m, x |-> x]
Uc(es, up, ch) == [k |-> "update", name |-> Name1, std |-> 0, mut |-> TRUE, exts |-> es, ow |-> "u1", au |-> "u1", sg |-> TRUE, gr |-> "-", ga |-> "-", dfl |-> FALSE, up |-> up, chunk |-> ch]
Pc(n, up, ch) == [k |-> "proxied", name |-> n, std |-> 3, mut |-> TRUE, exts |-> << >>, ow |-> "u1", au |-> "u1", sg |-> TRUE, gr |-> "-", ga |-> "-", dfl |-> FALSE, up |-> up, chunk |-> ch]
Pick(S) == RandomElement(S)
RandX == LET t == Pick(1..5) IN
         IF t = 1 THEN Bk(Pick(0..2600)) ELSE IF t = 2 THEN Bl(Pick(5..2600)) ELSE IF t = 3 THEN Xc(Pick(1..11))
         ELSE IF t = 4 THEN Lk(Pick(0..18)) ELSE [t |-> T_Properties, c |-> E!RandC(T_Properties)]
Base_ == << Xc(T_Attributes), Bk(30), Xc(T_Creators) >>
Cases ==
    SetToSeq({Mc(n, s, m, << >>) : n \in Names_, s \in 0..3, m \in BOOLEAN})
    \o SetToSeq({Mc(Name1, s, TRUE, << e >>) : s \in 0..3, e \in Small \cup Bad})
    \o SetToSeq({Mc(Name2, 0, FALSE, << Xc(e), Xc(f) >>) : e \in 1..11, f \in {2, 3, 7, 11}})
    \o SetToSeq({Mc(Name1, 0, TRUE, << Bk(n) >>) : n \in Sizes} \cup {Mc(Name1, 0, TRUE, << Bl(n), Bk(m) >>) : n \in {850, 851, 1701}, m \in {10, 850, 1700}})
    \o SetToSeq({Mc(Name1, 1, TRUE, << Lk(n), Xc(T_Manager), Props(n), Wide(n) >>) : n \in {1, 5, 9, 12, 25}})
    \o [j \in 1..(IF Deep THEN 600 ELSE 30) |-> LET n == Pick(1..4) IN Mc(Pick(Names_), Pick({0, 0, 2}), Pick(BOOLEAN), [l \in 1..n |-> RandX])]
    \o SetToSeq({Mc(Name1, s, m, << Bk(3), Xc(f), Xc(4), Xc(t) >>) : s \in {0, 1}, m \in BOOLEAN, f \in {2, 3, 7}, t \in {1, 5, 6, 8, 10}})
    \o SetToSeq({Mc(Name1, 1, m, [t \in 1..10 |-> Xc(IF t > 8 THEN t + 1 ELSE t)]) : m \in BOOLEAN})
    \o SetToSeq({Mx(Name2, 0, m, es, ow, au, sg, gr, ga, FALSE) : m \in BOOLEAN, es \in {<< >>, << Bk(9), Xc(T_Creators) >>, << Bl(900), Xc(1), Xc(4) >>},
                  ow \in {"u1", "u3"}, au \in {"u1", "u3"}, sg \in BOOLEAN, gr \in {"-", "G"}, ga \in {"-", "u1", "u3"}})
    \o SetToSeq({Mx(Name1, 0, TRUE, es, "u3", "u1", TRUE, gr, "-", TRUE) : es \in {<< >>, << Bk(9) >>, << Bk(900), Xc(1), Xc(4) >>}, gr \in {"-", "G"}})
    \o SetToSeq({Uc(Base_, Up(hn, hm, m, x), 0) : hn \in BOOLEAN, hm \in BOOLEAN, m \in BOOLEAN, x \in {Bk(5), Bk(900), Lk(12), Xc(T_Attributes)}})
    \o SetToSeq({Uc(Base_, Up(TRUE, FALSE, FALSE, Xc(t)), ch) : t \in 1..11, ch \in {0, 1, 20}})
    \o SetToSeq({Uc(Base_, Up(FALSE, FALSE, FALSE, Bk(n)), 0) : n \in Sizes} \cup {Uc(Base_, Up(FALSE, TRUE, FALSE, Bl(n)), ch) : n \in {850, 851, 900, 901, 1701}, ch \in {100, 900}})
    \o SetToSeq({Uc(<< >>, Up(FALSE, FALSE, FALSE, x), 30) : x \in Small \cup Bad})
    \o SetToSeq({Pc(Name1, Up(hn, hm, m, x), ch) : hn \in BOOLEAN, hm \in BOOLEAN, m \in BOOLEAN, x \in {Bk(5), Bk(900), Bl(1800)}, ch \in {0, 100}})
Header == [keys |-> KeyBytes]

-----------------------------------------------------------------------------
Bytes(x) == X(x.t, E!EncX(x.t, x.c))
Split(d, n) == LET k == (Len(d) + n - 1) \div n IN [j \in 1..k |-> SubSeq(d, n * (j - 1) + 1, Lesser(n * j, Len(d)))]
Upload(k, x, n) ==
    LET b == Bytes(x)
        q == Split(b.d, n)
    IN IF b.n <= n THEN << IAllocate(<< k, "u2", "SYS" >>, << k, "u2" >>, b) >>
       ELSE << IAllocate(<< k, "u2", "SYS" >>, << k, "u2" >>, [b EXCEPT !.hd = FALSE, !.d = << >>]) >>
            \o [j \in 1..Len(q) |-> IWrite(<< k, "u2", "SYS" >>, << k, "u2" >>, j = 1, q[j])]
If(b, q) == IF b THEN q ELSE << >>
MintAll(c, es) == ICreate(<< "A", c.au, c.ow, c.gr, c.ga, "u2", "SYS" >>, << "A", "u2" >> \o If(c.sg, << c.au >>) \o If(c.ga # "-", << c.ga >>), c.name, c.std, c.mut, es)
\* the group, if any, is made before
Group_(c) == If(c.gr # "-", << ICreate(<< "G", "u1", "u1", "-", "-", "u2", "SYS" >>, << "G", "u1", "u2" >>, Name1, 0, TRUE, << X(T_Grouping, Grouping(5, "u3")) >>) >>)
Recipe(c) == Group_(c) \o Cat([j \in 1..Len(c.exts) |-> Upload("A", c.exts[j], 850)]) \o << MintAll(c, << >>) >>
\* without splitting: extension by extension, all at once
Pieces(c) == Group_(c) \o [j \in 1..Len(c.exts) |-> IAllocate(<< "A", "u2", "SYS" >>, << "A", "u2" >>, Bytes(c.exts[j]))] \o << MintAll(c, << >>) >>
Whole(c) == Group_(c) \o << MintAll(c, [j \in 1..Len(c.exts) |-> Bytes(c.exts[j])]) >>
UpdBy(c, b, he) == IUpdate(<< "A", "u1", b, "-", "u2", "SYS" >>, << "u1", "u2" >>, c.up.hn, c.up.name, c.up.hm, c.up.mut, he, IF he THEN Bytes(c.up.x) ELSE NoExt)
Direct(c) == Recipe(c) \o << UpdBy(c, "-", TRUE) >>
Limit(c) == IF c.chunk = 0 THEN 850 ELSE c.chunk
Buffered(c) == IF Bytes(c.up.x).n <= Limit(c) THEN Direct(c)
               ELSE Recipe(c) \o Upload("B", c.up.x, Limit(c)) \o << UpdBy(c, "B", FALSE), I0("Close", << "B", "u2" >>, << "B" >>) >>
RECURSIVE Run(_, _, _)
Run(st, is, j) == IF j > Len(is) THEN [ok |-> TRUE, st |-> st]
                  ELSE LET r == Apply(st, is[j]) IN IF r.ok THEN Run(r.st, is, j + 1) ELSE [ok |-> FALSE, st |-> st]
From(is) == Run([A |-> NONE, B |-> NONE, G |-> NONE], is, 1)

\* the described asset
Distinct(es) == \A i, j \in 1..Len(es) : es[i].t = es[j].t => i = j
By(c) == IF c.sg \/ c.ga = c.au THEN c.au ELSE "-"
Consent(c) == c.gr = "-" \/ (c.au = "u1" /\ IF c.ga = "-" THEN c.sg ELSE c.ga \in {"u1", "u3"})
Proper(c) == /\ Consent(c)
             /\ Distinct(c.exts)
             /\ \A j \in 1..Len(c.exts) : OnCreate(c.exts[j].t, Bytes(c.exts[j]).d, By(c)).ok
             /\ (c.std = 1) <=> \E j \in 1..Len(c.exts) : c.exts[j].t = T_Manager
             /\ c.std # 3 /\ ~ \E j \in 1..Len(c.exts) : c.exts[j].t = T_Proxy
Kept(c, x) == LET b == Bytes(x) IN [t |-> b.t, n |-> b.n, d |-> OnCreate(b.t, b.d, By(c)).d]
Described(c, e) ==
    /\ e.k = "asset" /\ e.st = 0 /\ e.std = c.std /\ e.mut = c.mut /\ e.owner = c.ow /\ e.auth = c.au /\ e.group = c.gr /\ e.da = "-"
    /\ e.name = NameOf(c.name)
    /\ Len(e.exts) = Len(c.exts)
    /\ {e.exts[j] : j \in 1..Len(e.exts)} = {Kept(c, c.exts[j]) : j \in 1..Len(c.exts)}
\* in the specification every way leads to the same asset
SpecGood(c) ==
    CASE c.k = "mint" -> LET r == From(Recipe(c)) IN (r.ok <=> Proper(c)) /\ (r.ok => Described(c, r.st.A))
      [] c.k = "update" -> LET r == From(Direct(c))
                               s == From(Buffered(c))
                           IN (r.ok <=> s.ok) /\ (r.ok => r.st = s.st)
      [] OTHER -> TRUE

Fits(o) == \A j \in 1..Len(o.txs) : o.txs[j] <= MaxTx
\* what the recipes split fits a transaction
Splits(c, o) == CASE o.way \in {"mint", "initialize"} -> TRUE [] o.way \in {"buffered", "pbuffered"} -> Limit(c) <= 850 [] OTHER -> FALSE
MintGood(c, o) ==
    IF o.way \in {"create", "allocate"} THEN LET r == From(IF o.way = "create" THEN Whole(c) ELSE Pieces(c)) IN (o.done <=> r.ok) /\ (r.ok => o.end = r.st.A /\ o.g = r.st.G /\ Described(c, o.end))
    ELSE (o.done <=> Proper(c)) /\ (Proper(c) => LET r == From(Recipe(c)) IN o.end = r.st.A /\ o.g = r.st.G /\ Described(c, o.end))
UpdateGood(c, o) == LET r == From(Direct(c)) IN (o.done <=> r.ok) /\ (r.ok => o.end = r.st.A /\ o.b = NONE)
\* the reference proxy passes on everything but extensions
ProxiedGood(c, o) ==
    /\ o.done
    /\ o.b = NONE
    /\ LET z == o.z IN /\ z.k = "asset" /\ z.std = 3 /\ z.owner = "u3"
                       /\ z.name = NameOf(IF c.up.hn THEN c.up.name ELSE c.name)
                       /\ z.mut = (IF c.up.hm THEN c.up.mut ELSE TRUE)
OutGood(c, o) ==
    /\ o.ok
    /\ Splits(c, o) => Fits(o)
    /\ CASE c.k = "mint" -> MintGood(c, o) [] c.k = "update" -> UpdateGood(c, o) [] OTHER -> ProxiedGood(c, o)
Ways(c) == CASE c.k = "mint" -> {"mint", "create", "initialize", "allocate"} [] c.k = "update" -> {"update", "buffered"} [] OTHER -> {"pupdate", "pbuffered"}
Good(c, o) == /\ {o.outs[j].way : j \in 1..Len(o.outs)} = Ways(c)
              /\ \A j \in 1..Len(o.outs) : OutGood(c, o.outs[j])
=============================================================================
