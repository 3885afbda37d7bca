------------------------------- MODULE U_big -------------------------------
(***************************************************************************)
(* Magnitudes: groups with very many members, extensions of many hundred   *)
(* bytes, assets with every type of extension, and the limit on how much   *)
(* an account may grow at once.  One step from every listed state.         *)
(***************************************************************************)
EXTENDS Gen

R(n, b) == [j \in 1..n |-> ((b + j * 7) % 251)]
N1(b1, b2, b3, b4, b5) == << b1, b2, b3, b4, b5, 0, 0, 0 >>
Sizes == {N1(254, 0, 0, 0, 0), N1(255, 0, 0, 0, 0), N1(0, 1, 0, 0, 0), N1(255, 255, 0, 0, 0), N1(0, 0, 1, 0, 0),
          N1(255, 255, 255, 255, 0), N1(0, 0, 0, 0, 1), N1(7, 0, 0, 0, 3)}
Gd(size, mx, d) == size \o mx \o KB(d)
Maxes(n) == {Zero64, n, Inc64(n, 1), << 255, 255, 255, 255, 255, 255, 255, 255 >>}
As(std, g, es) == [Asset(std, TRUE, "u1", "u1", Name1, es) EXCEPT !.group = g]
GroupStates ==
    {[A |-> As(0, "G", << >>), B |-> As(0, "-", << >>),
      G |-> As(0, "-", << X(T_Bucket, R(3, 1)), X(T_Grouping, Gd(n, m, "u3")), X(T_Blob, << 0 >>) >>), H |-> NONE] :
       n \in Sizes, m \in UNION {Maxes(x) : x \in Sizes}}
Legal(s) == GWithin(ExtData(s.G, T_Grouping))

\* every type of extension
Cr == Creator("u1", 1, 60) \o Creator("u2", 0, 40)
Ex == << X(T_Attributes, << 1, 97, 1, 98 >>), X(T_Blob, << 1, 97 >> \o R(9, 3)), X(T_Creators, Cr), X(T_Links, << 1, 97, 3, 98, 99, 100 >>),
         X(T_Metadata, << 1, 97, 0, 1, 98 >>), X(T_Grouping, Gd(Zero64, N1(5, 0, 0, 0, 0), "u3")),
         X(T_Royalties, Royalties(500, CAnd(CMatch(2, "x1") \o CNot(COwnedBy(1, "PX"))))), X(T_Manager, ManagerData("u3", 7)),
         X(T_Properties, << 1, 97, 2, 1 >>), X(T_Bucket, R(5, 9)) >>
Perm(p) == [j \in 1..Len(p) |-> Ex[p[j]]]
FullAsset(p) == [A |-> As(1, "-", Perm(p)), B |-> NONE, G |-> NONE, H |-> NONE]
FullStates == {FullAsset(p) : p \in {<< 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 >>, << 10, 9, 8, 7, 6, 5, 4, 3, 2, 1 >>, << 8, 1, 10, 3, 6, 2, 7, 9, 5, 4 >>,
                                       << 2, 10, 4, 8, 6, 1, 3, 5, 7, 9 >>}}
\* long extensions
LongEx == {X(T_Bucket, R(n, 4)) : n \in {247, 255, 256, 257, 1000, 2500}}
LongStates == {[A |-> As(0, "-", << X(T_Attributes, << 1, 97, 1, 98 >>), e, X(T_Blob, << 1, 97 >> \o R(9, 3)) >>), B |-> NONE, G |-> NONE, H |-> NONE] : e \in LongEx}
   \cup {[A |-> NONE, B |-> [k |-> "buf", exts |-> << [t |-> T_Bucket, n |-> n, d |-> R(m, 5)] >>, len |-> 184 + m, xl |-> 0],
          G |-> As(0, "-", << X(T_Bucket, R(400, 6)), X(T_Blob, << 0 >>) >>), H |-> NONE] :
          n \in {300, 1200}, m \in {0, 40, 255, 256, 299}}
   \cup {[A |-> NONE, B |-> [k |-> "buf", exts |-> << [t |-> T_Bucket, n |-> n, d |-> R(n, 5)] >>, len |-> 184 + Pad8(n), xl |-> 0],
          G |-> As(0, "-", << X(T_Bucket, R(400, 6)), X(T_Blob, << 0 >>) >>), H |-> NONE] :
          n \in {300, 1200}}
Inits == {s \in GroupStates : Legal(s)} \cup FullStates \cup LongStates
Bound(s) == Deep /\ s \notin Inits /\ \A k \in DOMAIN s : s[k].xl = 0 /\ (s[k].k # "none" => s[k].len < 700)

Up(k, e) == IExt(k, "u1", "u5", << "u1", "u5" >>, e)
New == {X(T_Bucket, R(n, 8)) : n \in {0, 248, 255, 256, 257, 263, 264, 900, 2500}}
       \cup {X(T_Blob, << 1, 97 >> \o R(n, 2)) : n \in {1, 254, 260, 1000}}
       \cup {X(T_Attributes, << 1, 97, 250 >> \o [j \in 1..250 |-> 97 + (j % 26)]), X(T_Links, << 1, 97, 1, 98, 1, 99, 1, 100, 2, 101, 102, 0 >>),
             X(T_Creators, Creator("u2", 0, 100)), X(T_Creators, Creator("u1", 0, 30) \o Creator("u2", 0, 40) \o Creator("u3", 0, 30)),
             X(T_Metadata, << 0, 3, 97, 98, 99, 0 >>), X(T_Royalties, Royalties(10000, CEmpty)), X(T_Manager, ManagerData("u2", 2)),
             X(T_Properties, << 1, 97, 0, 2, 97, 98, 1, 99, 2, 0 >>), X(T_Grouping, Zero64 \o Zero64)}
\* assets created with every type of extension at once, the last one ill formed
Ill == << X(T_Attributes, << 9, 97 >>), X(T_Blob, << 9, 97 >>), X(T_Creators, Creator("u1", 0, 60)), X(T_Links, << 1, 97, 5, 98 >>),
          X(T_Metadata, << 3, 97 >>), X(T_Grouping, Gd(Zero64, Zero64, "u3") \o << 1 >>), X(T_Royalties, << 1, 0 >>), X(T_Manager, << 1, 2 >>),
          X(T_Properties, << 1, 97, 9 >>), X(T_Bucket, << >>) >>
Bps == {X(T_Royalties, b \o CEmpty) : b \in {B64(10000), B64(10001), B64(65536), N1(1, 0, 1, 0, 0), N1(0, 0, 0, 1, 0), N1(0, 0, 0, 0, 1), << 0, 0, 0, 0, 0, 0, 0, 128 >>,
                                              << 255, 255, 255, 255, 255, 255, 255, 255 >>, << 5, 0, 0, 0, 0, 1, 0, 0 >>}}
AllBut(j) == SelectSeq(<< 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 >>, LAMBDA x : x # j)
Whole(es) == ICreate(<< "H", "u1", "u4", "-", "-", "u5", "SYS" >>, << "H", "u5" >>, Name2, 1, TRUE, es)
Instrs == Cat(<<
    Seq_({Whole(Perm(AllBut(j)) \o << e >>) : j \in 1..10, e \in {Ex[i] : i \in 1..10} \cup {Ill[i] : i \in 1..10}}),
    Seq_({I0(op, << k, "G", "u3" >>, << "u3" >>) : op \in {"Group", "Ungroup"}, k \in {"A", "B"}}),
    Seq_({I0("Burn", << k, "u1", "-", g >>, << "u1" >>) : k \in {"A", "B", "G"}, g \in {"-", "G"}}),
    << ICreate(<< "H", "u1", "u4", "G", "u3", "u5", "SYS" >>, << "H", "u5", "u3" >>, Name2, 0, TRUE, << >>),
       ICreate(<< "H", "u1", "u4", "-", "-", "u5", "SYS" >>, << "H", "u5" >>, Name2, 0, TRUE, << X(T_Bucket, R(300, 3)), X(T_Blob, << 1, 97 >> \o R(270, 2)) >>),
       ICreate(<< "B", "u1", "u4", "-", "-", "u5", "SYS" >>, << "B", "u5" >>, Name2, 0, TRUE, << >>) >>,
    Seq_({Up("G", X(T_Grouping, Gd(s, m, d))) : s \in {Zero64}, m \in UNION {Maxes(x) : x \in Sizes}, d \in {"SYS"}}),
    Seq_({Up("G", X(T_Grouping, Gd(N1(9, 9, 9, 9, 9), m, "u2"))) : m \in {Zero64, N1(9, 9, 9, 9, 9), N1(255, 255, 255, 255, 0)}}),
    Seq_({Up("A", e) : e \in Bps}),
    Seq_({ICreate(<< "H", "u1", "u4", "-", "-", "u5", "SYS" >>, << "H", "u5" >>, Name2, 0, TRUE, << e >>) : e \in Bps}),
    Seq_({IRemove(<< k, "u1", "-", "u6" >>, << "u1" >>, t) : k \in {"A", "G"}, t \in 0..11}),
    Seq_({Up(k, e) : k \in {"A", "G"}, e \in New}),
    Seq_({IResize(<< "A", "u1", "u5", "SYS" >>, << "u1", "u5" >>, FALSE, v) : v \in {255, 256, 10240, 10241, 65535}}),
    << IResize(<< "A", "u1", "u5", "SYS" >>, << "u1", "u5" >>, TRUE, 0) >>,
    Seq_({IWrite(<< "B", "u5", "SYS" >>, << "B", "u5" >>, ow, R(n, 1)) : ow \in BOOLEAN, n \in {1, 44, 45, 255, 256, 260, 300, 301, 900}}),
    Seq_({IAllocate(<< "B", "u5", "SYS" >>, << "B", "u5" >>, e) :
          e \in {X(T_Blob, << 1, 97 >> \o R(300, 2)), [t |-> T_Blob, n |-> 3000, hd |-> TRUE, d |-> R(256, 2)], [t |-> T_Blob, n |-> 70000, hd |-> FALSE, d |-> << >>]}}),
    << IBuf("G", "u1", "B", "u5", << "u1", "u5" >>) >>
    >>)
=============================================================================
