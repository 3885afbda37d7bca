------------------------------- MODULE U_val -------------------------------
(***************************************************************************)
(* Values: names, roles, extension contents, creator lists, constraints,   *)
(* sizes and chunk boundaries drawn at random (from Seed) over their whole *)
(* range, valid and damaged, in random states.  Explored by random         *)
(* behaviours; every instruction is tried in every state visited.          *)
(***************************************************************************)
EXTENDS Gen

\* a pseudo-random number below m for the pair a, b
Rn(a, b, m) ==
    LET x == ((a % 32749) * 61 + (b % 32749) * 59 + (Seed % 9973) * 43 + 17) % 46337
        y == (x * x + 7919 + (a % 1009)) % 46337
        z == (y * y + 31 + (b % 1013)) % 46337
        w == (z * 28657 + 5) % 46337
    IN ((w * 41) \div 7 + z) % m
Pick(a, b, s) == s[1 + Rn(a, b, Len(s))]
Sub1(a, j) == (a * 37 + j * 101 + 11) % 32749

Bytes(a, n) == [j \in 1..n |-> Rn(a, j, 256)]
Chars(a, n) == [j \in 1..n |-> 97 + Rn(a, j, 26)]
Lens == << 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 64, 100, 127, 128, 200, 255 >>
Short == << 0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 11 >>
StrN(a, n) == << n >> \o Chars(a, n)
RStr(a) == StrN(a, IF Rn(a, 1, 5) = 0 THEN Pick(a, 2, Lens) ELSE Pick(a, 3, Short))
RECURSIVE RPairs(_, _)
RPairs(a, n) == IF n = 0 THEN << >> ELSE RStr(Sub1(a, 2 * n)) \o RStr(Sub1(a, 2 * n + 1)) \o RPairs(a, n - 1)
RECURSIVE RProps(_, _)
RProps(a, n) ==
    IF n = 0 THEN << >>
    ELSE RStr(Sub1(a, 3 * n)) \o
         (LET k == Rn(a, n, 3) IN << k >> \o (CASE k = 0 -> RStr(Sub1(a, 3 * n + 1)) [] k = 1 -> Bytes(Sub1(a, n), 8) [] OTHER -> << Rn(a, n + 7, 2) >>))
         \o RProps(a, n - 1)

Keys_ == << "u1", "u2", "u3", "u4", "u5", "u6", "k1", "k2", "x1", "y1", "A", "G", "H" >>
Who == << "u1", "u2", "u3", "x1", "y1", "PX", "SYS", "NIFTY", "A", "u4" >>
RECURSIVE KList(_, _)
KList(a, n) == IF n = 0 THEN << >> ELSE KB(Pick(a, n, Who)) \o KList(a, n - 1)
RECURSIVE RCon(_, _), RCons(_, _, _)
RCon(a, h) ==
    IF h = 0 THEN CASE Rn(a, 1, 5) \in {0, 1} -> COp(OpPubkeyMatch, B64(Rn(a, 2, 3)) \o KList(a, Rn(a, 3, 4)))
                    [] Rn(a, 1, 5) \in {2, 3} -> COp(OpOwnedBy, B64(Rn(a, 2, 3)) \o KList(a, Rn(a, 3, 4)))
                    [] OTHER -> CEmpty
    ELSE CASE Rn(a, 1, 5) \in {0, 1} -> CAnd(RCons(a, h - 1, Rn(a, 2, 4)))
           [] Rn(a, 1, 5) \in {2, 3} -> COr(RCons(a, h - 1, Rn(a, 2, 4)))
           [] OTHER -> CNot(RCon(Sub1(a, 9), h - 1))
RCons(a, h, n) == IF n = 0 THEN << >> ELSE RCon(Sub1(a, n), Rn(a, n + 20, h + 1)) \o RCons(a, h, n - 1)

RECURSIVE RCreators(_, _, _, _)
\* n creators sharing `left`; distinct addresses
RCreators(a, j, n, left) ==
    IF j > n THEN << >>
    ELSE LET s == IF j = n THEN left ELSE Rn(a, j, (left \div 2) + 1)
         IN Creator(Keys_[1 + ((Rn(a, 0, 13) + j * 5) % 13)], Rn(a, j + 40, 2), s) \o RCreators(a, j + 1, n, left - s)
Tot(a) == IF Rn(a, 60, 6) = 0 THEN Pick(a, 61, << 0, 1, 50, 99, 101, 200, 255 >>) ELSE 100

\* a 64-bit number
Num(a) == LET n == Rn(a, 1, 9) IN [j \in 1..8 |-> IF j <= n THEN Rn(a, j + 1, 256) ELSE 0]
\* mostly valid data of type t
Raw(t, a) ==
    CASE t \in {T_Attributes, T_Links} -> RPairs(a, Rn(a, 5, 5))
      [] t = T_Blob -> RStr(a) \o Bytes(a, Pick(a, 6, Lens))
      [] t = T_Creators -> RCreators(a, 1, 1 + Rn(a, 7, 9), Tot(a))
      [] t = T_Metadata -> RStr(Sub1(a, 1)) \o RStr(Sub1(a, 2)) \o RStr(Sub1(a, 3)) \o (IF Rn(a, 8, 2) = 0 THEN RStr(Sub1(a, 4)) ELSE << >>)
      [] t = T_Grouping -> (IF Rn(a, 9, 4) = 0 THEN Num(a) ELSE Zero64) \o (IF Rn(a, 10, 2) = 0 THEN Zero64 ELSE Num(Sub1(a, 1)))
                           \o (IF Rn(a, 11, 3) = 0 THEN << >> ELSE KB(Pick(a, 12, << "SYS", "u1", "u2", "u3" >>)))
      [] t = T_Royalties -> (IF Rn(a, 22, 12) = 0 THEN Num(a) ELSE B64(IF Rn(a, 13, 4) = 0 THEN 10000 + Rn(a, 14, 2) ELSE Rn(a, 15, 10001))) \o RCon(a, Rn(a, 16, 4))
      [] t = T_Manager -> ManagerData(Pick(a, 17, << "u1", "u2", "u3", "x1" >>), Rn(a, 18, 8))
      [] t = T_Proxy -> ProxyData("Z", Pick(a, 19, << "u1", "u2", "SYS" >>))
      [] t = T_Properties -> RProps(a, Rn(a, 20, 5))
      [] OTHER -> Bytes(a, Pick(a, 21, Lens))
Broken(d, a) ==
    CASE Rn(a, 30, 4) = 0 /\ d # << >> -> SubSeq(d, 1, Rn(a, 31, Len(d)))
      [] Rn(a, 30, 4) = 1 -> d \o << Rn(a, 32, 100) >>
      [] Rn(a, 30, 4) = 2 /\ d # << >> -> LET p == 1 + Rn(a, 33, Lesser(Len(d), 40)) IN [d EXCEPT ![p] = (@ + 1 + Rn(a, 34, 100)) % 128]
      [] OTHER -> d \o d
Content(t, a) == IF Rn(a, 35, 6) = 0 THEN Broken(Raw(t, a), a) ELSE Raw(t, a)
RName(a) == LET n == Pick(a, 40, << 0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 34, 35, 36, 40, 70 >>) IN Chars(a, n) \o (IF Rn(a, 41, 5) = 0 THEN << 195, 169 >> ELSE << >>)

\* the first valid content for type t
RECURSIVE ValidContent(_, _, _)
ValidContent(t, a, tries) ==
    LET d == Raw(t, a) IN
    IF OnCreate(t, d, "-").ok THEN OnCreate(t, d, Pick(a, 42, << "-", "u1", "u2" >>)).d
    ELSE IF tries = 0 THEN << >> ELSE ValidContent(t, Sub1(a, 77), tries - 1)
\* distinct types (never the proxy's); the manager's first when managed
TypeList(a, n, std) ==
    LET s == 1 + Rn(a, 50, 10)
        all == [j \in 1..n |-> 1 + ((Rn(a, 51, 11) + j * s) % 11)]
        kept == SelectSeq(all, LAMBDA t : t \notin {T_Manager, T_Proxy})
        p == Rn(a, 52, Len(kept) + 1)
    IN IF std = 1 THEN SubSeq(kept, 1, p) \o << T_Manager >> \o SubSeq(kept, p + 1, Len(kept)) ELSE kept
\* contents that cannot be empty fall back to a bucket
RAsset(a, std, n) ==
    LET ts == TLCEval(TypeList(a, n, std))
        es == TLCEval([j \in 1..Len(ts) |-> X(ts[j], TLCEval(ValidContent(ts[j], Sub1(a, j), 12)))])
        fine == SelectSeq(es, LAMBDA e : OnCreate(e.t, e.d, "-").ok)
        d == Rn(a, 53, 3)
    IN [Asset(std, Rn(a, 54, 5) # 0, Pick(a, 55, << "u1", "u2", "x1" >>), Pick(a, 56, << "u1", "u2" >>), NameOf(RName(a)), fine)
        EXCEPT !.st = IF Rn(a, 57, 6) = 0 THEN 1 ELSE 0, !.da = IF d = 0 THEN Pick(a, 58, << "u2", "u3", "x1" >>) ELSE "-",
               !.dr = IF d = 0 THEN 1 + Rn(a, 59, 7) ELSE 0, !.len = @ + (IF Rn(a, 62, 4) = 0 THEN 8 * Rn(a, 63, 30) ELSE 0)]
RGroup(a, size) ==
    LET r == RAsset(a, 0, Rn(a, 64, 4))
        es == SelectSeq(r.exts, LAMBDA e : e.t # T_Grouping)
        p == Rn(a, 65, Len(es) + 1)
        mx == Pick(a, 66, << Zero64, B64(1), B64(2), B64(3), Num(a) >>)
        g == B64(size) \o (IF Le64(B64(size), mx, 8) THEN mx ELSE Zero64) \o (IF Rn(a, 67, 3) = 0 THEN << >> ELSE KB(Pick(a, 68, << "SYS", "u2", "u3" >>)))
        all == SubSeq(es, 1, p) \o << [t |-> T_Grouping, n |-> Len(g), d |-> g] >> \o SubSeq(es, p + 1, Len(es))
    IN [r EXCEPT !.exts = all, !.len = SpaceOf(all), !.group = "-"]
\* a buffer: complete extensions and one cut at a random place
PartT(a) == Pick(a, 70, << 1, 2, 3, 4, 5, 6, 7, 10, 11 >>)
Cut(d, a) == IF d = << >> THEN 0 ELSE Rn(a, 71, Len(d) + 1)
PartD(a) == ValidContent(PartT(a), a, 12)
RBuf(a) ==
    LET t == PartT(a)
        d == TLCEval(PartD(a))
        o == PartT(Sub1(a, 1))
        od == TLCEval(PartD(Sub1(a, 1)))
        pre == IF Rn(a, 72, 2) = 0 /\ o # t THEN << [t |-> o, n |-> Len(od), d |-> od] >> ELSE << >>
        c == Cut(d, a)
    IN [k |-> "buf", exts |-> pre \o << [t |-> t, n |-> Len(d), d |-> SubSeq(d, 1, c)] >>,
        len |-> SpaceOf(pre) + EXT + (IF c = Len(d) THEN Pad8(c) ELSE c), xl |-> 0]

NI == IF Deep THEN 160 ELSE 16
NS == IF Deep THEN 400 ELSE 40
RState(a) ==
    LET ga == Rn(a, 80, 3) = 0
        gh == Rn(a, 81, 3) = 0
        ra == TLCEval(IF Rn(a, 82, 8) = 0 THEN NONE ELSE RAsset(Sub1(a, 1), Rn(a, 83, 3), Rn(a, 84, 6)))
        rh == TLCEval(IF Rn(a, 85, 2) = 0 THEN NONE ELSE RAsset(Sub1(a, 2), Rn(a, 86, 3), Rn(a, 87, 4)))
        ia == ga /\ ra.k = "asset"
        ih == gh /\ rh.k = "asset"
    IN [A |-> IF ia THEN [ra EXCEPT !.group = "G"] ELSE ra, H |-> IF ih THEN [rh EXCEPT !.group = "G"] ELSE rh,
        B |-> IF Rn(a, 88, 4) = 0 THEN NONE ELSE RBuf(a),
        G |-> TLCEval(RGroup(Sub1(a, 3), (IF ia THEN 1 ELSE 0) + (IF ih THEN 1 ELSE 0)))]
Inits == {RState(7 * j) : j \in 1..NS}
Bound(s) == \A k \in DOMAIN s : s[k].xl < 3000000 /\ (s[k].k # "none" => s[k].len < 2600)

All == << "u1", "u2", "u3", "u5", "u6", "A", "B", "G", "H", "x1" >>
Signers(a, need) == CASE Rn(a, 90, 6) = 0 -> need [] Rn(a, 90, 6) = 1 -> SelectSeq(All, LAMBDA u : Rn(a, 91 + KB(u)[1], 2) = 0) [] OTHER -> All
Us == << "u1", "u2", "u3", "x1" >>
Ks == << "A", "A", "G", "H" >>
RoleSets == << << 1 >>, << 2 >>, << 3 >>, << 1, 2 >>, << 1, 3 >>, << 2, 3 >>, << 1, 2, 3 >>, << 1, 1 >>, << >>, << 3, 1, 3 >> >>
RX(a) == LET t == 1 + Rn(a, 100, 11)
             d == TLCEval(Content(t, a))
         IN IF Rn(a, 101, 12) = 0 THEN [t |-> t, n |-> Rn(a, 102, 60), hd |-> TRUE, d |-> d]
            ELSE IF Rn(a, 101, 12) = 1 THEN [t |-> t, n |-> Len(d), hd |-> FALSE, d |-> << >>] ELSE X(t, d)
RXs(a, n, std) ==
    LET ts == TLCEval(TypeList(a, n, std))
    IN [j \in 1..Len(ts) |-> X(ts[j], TLCEval(IF Rn(a, 103 + j, 6) = 0 THEN Content(ts[j], Sub1(a, j)) ELSE ValidContent(ts[j], Sub1(a, j), 5)))]
Ops == << "Create", "Create", "Approve", "Approve", "Revoke", "Lock", "Unlock", "Transfer", "Transfer", "Burn", "Update", "Update", "Update", "Update",
          "Name", "Buffer", "Remove", "Remove", "Resize", "Group", "Ungroup", "Handover", "Verify", "Unverify", "Allocate", "Allocate", "Write", "Write", "Write", "Close" >>
RI(op, a) ==
    LET k == Pick(a, 110, Ks)  u == Pick(a, 111, IF op \in {"Update", "Name", "Buffer", "Remove", "Resize", "Handover"} THEN << "u1", "u2" >> ELSE Us)  v == Pick(a, 112, Us)  to == Pick(a, 113, << "u1", "u2", "u6", "x1", "u3" >>)
        g == Pick(a, 114, << "-", "G", "G" >>)
        std == Pick(a, 115, << 0, 0, 1, 2 >>)
        p == Pick(a, 121, << "u5", "u5", "u6", "u1" >>)
    IN CASE op = "Create" -> ICreate(<< Pick(a, 116, << "A", "B", "H" >>), u, v, g, IF g = "-" THEN "-" ELSE Pick(a, 117, << "-", "u3", "u2" >>), p, "SYS" >>,
                                     Signers(a, << "A", "B", "H", p, u >>), RName(a), std, Rn(a, 118, 4) # 0, RXs(a, Rn(a, 119, 5), IF Rn(a, 120, 6) = 0 THEN 0 ELSE std))
         [] op \in {"Approve"} -> IDel(op, << k, u, v >>, Signers(a, << u >>), Rn(a, 122, 5) = 0, Pick(a, 123, RoleSets))
         [] op = "Revoke" -> IDel(op, << k, u >>, Signers(a, << u >>), Rn(a, 122, 5) = 0, Pick(a, 123, RoleSets))
         [] op \in {"Lock", "Unlock", "Verify", "Unverify"} -> I0(op, << k, u >>, Signers(a, << u >>))
         [] op = "Transfer" -> LET i == I0(op, << k, u, to, g >>, Signers(a, << u >>)) IN IF Rn(a, 124, 3) = 0 THEN ViaCpi(i) ELSE i
         [] op = "Burn" -> I0(op, << k, u, Pick(a, 125, << "-", "u6", "u1", "x1" >>), g >>, Signers(a, << u >>))
         [] op = "Update" -> IUpdate(<< k, u, "-", "-", p, "SYS" >>, Signers(a, << u, p >>), Rn(a, 126, 5) = 0, RName(a), Rn(a, 127, 12) = 0, Rn(a, 128, 3) # 0, TRUE, RX(a))
         [] op = "Name" -> IUpdate(<< k, u, "-", "-", "-", "-" >>, Signers(a, << u >>), Rn(a, 126, 5) # 0, RName(a), Rn(a, 127, 4) = 0, Rn(a, 128, 3) # 0, FALSE, NoExt)
         [] op = "Buffer" -> IUpdate(<< k, u, "B", "-", p, "SYS" >>, Signers(a, << u, p >>), Rn(a, 126, 4) = 0, RName(a), FALSE, FALSE, Rn(a, 129, 4) = 0, RX(a))
         [] op = "Remove" -> IRemove(<< k, u, "-", to >>, Signers(a, << u >>), Rn(a, 130, 12))
         [] op = "Resize" -> IResize(<< k, u, p, "SYS" >>, Signers(a, << u, p >>), Rn(a, 131, 3) = 0, Pick(a, 132, << 1, 7, 8, 24, 100, 250, 1000 >>))
         [] op \in {"Group", "Ungroup"} -> I0(op, << Pick(a, 133, << "A", "H" >>), "G", u >>, Signers(a, << u >>))
         [] op = "Handover" -> I0(op, << k, u, v >>, Signers(a, << u, v >>))
         [] op = "Allocate" -> IAllocate(<< "B", p, "SYS" >>, Signers(a, << "B", p >>),
                                LET x == RX(a) IN IF Rn(a, 134, 2) = 0 /\ Len(x.d) > 0 THEN [x EXCEPT !.d = SubSeq(@, 1, Rn(a, 135, Len(x.d)))] ELSE x)
         [] op = "Write" -> LET s == 7 * (1 + Rn(a, 136, NS))
                                d == TLCEval(PartD(s))
                                c == Cut(d, s)
                                rest == SubSeq(d, c + 1, Len(d))
                            IN CASE Rn(a, 137, 4) = 0 -> IWrite(<< "B", p, "SYS" >>, Signers(a, << "B", p >>), TRUE, SubSeq(d, 1, Cut(d, a)))
                                 [] Rn(a, 137, 4) = 1 -> IWrite(<< "B", p, "SYS" >>, Signers(a, << "B", p >>), Rn(a, 138, 2) = 0, Bytes(a, Pick(a, 139, Lens)))
                                 [] Rn(a, 137, 4) = 2 -> IWrite(<< "B", p, "SYS" >>, Signers(a, << "B", p >>), FALSE, SubSeq(rest, 1, Cut(rest, a)))
                                 [] OTHER -> IWrite(<< "B", p, "SYS" >>, Signers(a, << "B", p >>), FALSE, rest)
         [] OTHER -> I0("Close", << Pick(a, 140, << "B", "B", "A", "G" >>), to >>, Signers(a, << "B" >>))
Instrs == Cat([o \in 1..Len(Ops) |-> [j \in 1..NI |-> TLCEval(RI(Ops[o], o * 1000 + j * 13))]])
=============================================================================
