-------------------------------- MODULE U_make --------------------------------
(***************************************************************************)
(* Creation: a sample of every combination of standard, mutability, name,  *)
(* owner, authority, group, group authority, payer, signatures, extensions *)
(* passed inline and extensions uploaded before.  One step.                *)
(***************************************************************************)
EXTENDS Gen

L == << 1, 97, 1, 98 >>
Cr == Creator("u1", 1, 60) \o Creator("u2", 0, 40)
Mg == X(T_Manager, ManagerData("u3", 3))
Px(z) == X(T_Proxy, ProxyData(z, "u2"))
Bk(n) == X(T_Bucket, [j \in 1..n |-> j])
Gr(n, mx) == X(T_Grouping, SetGSize(Grouping(mx, "u3"), n))
Ro(b) == X(T_Royalties, Royalties(b, CNot(CMatch(2, "x1"))))
Exts == << << >>, << Mg >>, << X(T_Attributes, L) >>, << Bk(3), Mg >>, << X(T_Creators, Cr), Bk(1) >>, << Mg, X(T_Creators, Cr) >>, << Gr(0, 5) >>, << Gr(0, 0), Mg >>,
           << Ro(500) >>, << Mg, Ro(10000), Bk(8) >>, << Px("Y") >>, << Px("Z") >>, << Px("Z"), Bk(2) >>, << Ro(10001) >>, << X(T_Attributes, L), X(T_Attributes, L) >>,
           << Mg, Px("Z") >>, << Gr(1, 5) >>, << X(T_Creators, Creator("u2", 0, 99)) >>, << X(T_Blob, << 1, 97, 5 >>), X(T_Links, L), X(T_Metadata, << 1, 97, 1, 98, 0 >>) >>,
           << Mg, Mg >>, << X(T_Properties, << 1, 97, 2, 1 >>), Bk(7) >> >>
Names == << Name1, Name2, << >>, [j \in 1..35 |-> 97], [j \in 1..36 |-> 98], [j \in 1..34 |-> 99] \o << 195, 169 >> >>
Ks == << "A", "Z", "A" >>
Auths == << "u1", "u2", "u1" >>
Owns == << "u1", "u2", "x1", "u4" >>
Grps == << "-", "G", "-", "H" >>
GAs == << "-", "u3", "u1" >>
Pays == << "u5", "-", "u6", "u5" >>
\* who signs besides the payer
Sigs(k, au) == << << k, au, "u3" >>, << k >>, << k, au >>, << k, "u3" >>, << au, "u3" >>, << k, au, "u3" >> >>
Dims == << 3, 3, 4, 4, 3, 4, 6, 6, 4, 2, Len(Exts) >>
RECURSIVE Size_(_)
Size_(j) == IF j = 0 THEN 1 ELSE Dims[j] * Size_(j - 1)
Ix(n, j) == ((n \div Size_(j - 1)) % Dims[j]) + 1
Total == Size_(Len(Dims)) \div 8
Mk(m) ==
    LET n == 8 * m + (m % 7)
        k == Ks[Ix(n, 1)]
        au == Auths[Ix(n, 2)]
        g == Grps[Ix(n, 4)]
        p == Pays[Ix(n, 6)]
    IN ICreate(<< k, au, Owns[Ix(n, 3)], g, IF g = "-" THEN "-" ELSE GAs[Ix(n, 5)], p, "SYS" >>,
               Sigs(k, au)[Ix(n, 8)] \o (IF p = "-" THEN << >> ELSE << p >>), Names[Ix(n, 7)], Ix(n, 9) - 1, Ix(n, 10) = 1, Exts[Ix(n, 11)])
Num_ == IF Deep THEN 20000 ELSE 4000
Instrs == [j \in 1..Num_ |-> Mk(((Total \div Num_) * (j - 1) + ((j * 37 + Seed) % (Total \div Num_))) % Total)]

Buf(es, m) == [k |-> "buf", exts |-> [j \in 1..Len(es) |-> [t |-> es[j].t, n |-> es[j].n, d |-> es[j].d]], len |-> SpaceOf(es), xl |-> m]
Half == [k |-> "buf", exts |-> << [t |-> T_Bucket, n |-> 9, d |-> << 1, 2 >>] >>, len |-> 186, xl |-> 0]
Group(au, n, mx, es) == Asset(0, TRUE, "u4", au, Name1, es \o << Gr(n, mx) >>)
Member == [Asset(0, TRUE, "u4", "u1", Name1, << >>) EXCEPT !.group = "G"]
Inits == {[A |-> a, Z |-> NONE, G |-> Group("u1", 0, 2, << >>), H |-> Group("u2", 0, 0, << Bk(5) >>), B |-> NONE] :
            a \in {NONE, Buf(<< Mg >>, 0), Buf(<< X(T_Creators, Cr) >>, 0), Buf(<< Bk(3), X(T_Attributes, L) >>, 0), Half, Buf(<< Ro(10001) >>, 0)}}
    \cup {[A |-> NONE, Z |-> z, G |-> Group("u1", 1, 1, << >>), H |-> Asset(0, TRUE, "u4", "u1", Name1, << >>), B |-> Member] :
            z \in {NONE, Buf(<< Px("Z") >>, 0), Buf(<< Px("Y"), Bk(2) >>, 0)}}
Bound(s) == FALSE
=============================================================================
