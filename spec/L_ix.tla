-------------------------------- MODULE L_ix --------------------------------
(* Instructions to be assembled by the builders of the Rust clients.        *)
EXTENDS Wire

Rem0 == << >>
Rems == << Rem0, << Mt("u6", FALSE, TRUE) >>, << Mt("x1", TRUE, FALSE), Mt("u5", FALSE, FALSE), Mt("k1", TRUE, TRUE) >> >>
Pool == << "A", "u1", "u2", "G", "u3", "u4", "k2", "B", "H", "PX", "PY", "x2", "y1", "F1", "M1", "M2", "D1", "D2", "V1", "W1" >>
\* the accounts a builder fills in when they are not given
Defaults == [Write |-> << "A", "u1", "SYS" >>,
             BCreate |-> << "W1", "V1", "M1", "D1", "u1", "G", "u2", "SYS", "NIFTY" >>,
             BBridge |-> << "W1", "V1", "u1", "t11", "M1", "D1", "D2", "r11", "t1v", "r1v", "u2", "NIFTY", "TM", "SYS", "SIV", "TOKEN", "ATA",
                            "PX", "PY", "G" >>]
\* the accounts with the optional ones outside S left out, the pool rotated by r
Accs(op, S, r) == [j \in 1..Len(AccTab[op]) |-> IF AccTab[op][j].o /\ j \notin S THEN "-" ELSE Pool[((j + r - 1) % Len(Pool)) + 1]]
Opts_(op) == {j \in 1..Len(AccTab[op]) : AccTab[op][j].o}
Maybe(op) == {j \in 1..Len(AccTab[op]) : AccTab[op][j].s = "?"}
SgOf(op, acc, T) == SetToSeq({acc[j] : j \in T})

Utf == << 195, 169, 240, 159, 152, 128 >>
Long(n) == [j \in 1..n |-> 97 + (j % 26)]
R(n, b) == [j \in 1..n |-> (b + j) % 256]
Xs == {X(1, << >>), X(11, R(9, 250)), [t |-> 2, n |-> 300, hd |-> FALSE, d |-> << >>], [t |-> 3, n |-> 70000, hd |-> TRUE, d |-> R(34, 3)]}
      \cup {X(t, R(t, t)) : t \in 0..11}
\* for every instruction, all its arguments
BareArgs(op) ==
    CASE op = "Create" ->
        SetToSeq({ICreate(<< >>, << >>, n, s, m, << >>) : n \in {<< >>, Name1, Utf, Long(35), Long(300)}, s \in 0..3, m \in BOOLEAN}
                 \cup {ICreate(<< >>, << >>, Name1, 0, TRUE, << x >>) : x \in Xs}
                 \cup {ICreate(<< >>, << >>, Name1, s, m, << X(8, R(33, 1)), X(1, << 1, 97, 1, 98 >>), X(11, R(40, 7)) >>) : s \in 0..3, m \in BOOLEAN}
                 \cup {[ICreate(<< >>, << >>, Name1, 2, FALSE, << >>) EXCEPT !.hx = TRUE]})
      [] op \in {"Approve", "Revoke"} ->
        << IDel(op, << >>, << >>, TRUE, << >>) >>
        \o SetToSeq({IDel(op, << >>, << >>, FALSE, r) : r \in {<< >>, << 0 >>, << 1 >>, << 2 >>, << 3 >>, << 1, 2 >>, << 3, 2, 1 >>, << 1, 1, 0 >>}})
      [] op = "Allocate" -> SetToSeq({IAllocate(<< >>, << >>, x) : x \in Xs})
      [] op = "Update" ->
        SetToSeq({IUpdate(<< >>, << >>, hn, IF hn THEN Utf ELSE << >>, hm, hm /\ m, he, IF he THEN X(7, R(20, 5)) ELSE NoExt) :
                    hn \in BOOLEAN, hm \in BOOLEAN, m \in BOOLEAN, he \in BOOLEAN}
                 \cup {IUpdate(<< >>, << >>, FALSE, << >>, FALSE, FALSE, TRUE, x) : x \in Xs}
                 \cup {IUpdate(<< >>, << >>, TRUE, n, FALSE, FALSE, FALSE, NoExt) : n \in {<< >>, Name1, Long(35), Long(300)}})
      [] op = "Write" -> SetToSeq({IWrite(<< >>, << >>, ow, d) : ow \in BOOLEAN, d \in {<< >>, << 7 >>, R(300, 1)}})
      [] op = "Remove" -> SetToSeq({IRemove(<< >>, << >>, t) : t \in 0..11})
      [] op = "Resize" -> SetToSeq({IResize(<< >>, << >>, TRUE, 0)} \cup {IResize(<< >>, << >>, FALSE, v) : v \in {0, 1, 255, 256, 10240, 65535}})
      [] op = "BCreate" -> << [op |-> op, acc |-> << >>, sg |-> << >>, cpi |-> FALSE, coll |-> TRUE],
                              [op |-> op, acc |-> << >>, sg |-> << >>, cpi |-> FALSE, coll |-> FALSE] >>
      [] OTHER -> << I0(op, << >>, << >>) >>

Case_(i, acc, sg, rem, lazy, dfl) ==
    [x \in DOMAIN i \cup {"k", "rem", "lazy", "dfl"} |->
        CASE x = "k" -> "ix" [] x = "rem" -> rem [] x = "lazy" -> lazy [] x = "dfl" -> dfl
          [] x = "acc" -> acc [] x = "sg" -> sg [] OTHER -> i[x]]
CasesOf(op) ==
    LET args == BareArgs(op)
        All == Opts_(op)
        full == Accs(op, All, 0)
        P == SetToSeq((SUBSET All) \X (SUBSET Maybe(op)) \X (1..3) \X BOOLEAN \X {0, 3})
        Q == SetToSeq((1..Len(args)) \X BOOLEAN)
    IN [j \in 1..Len(P) |-> LET a == Accs(op, P[j][1], P[j][5]) IN
            Case_(args[((j - 1) % Len(args)) + 1], a, SgOf(op, a, P[j][2]), Rems[P[j][3]], P[j][4], FALSE)]
       \o [j \in 1..Len(Q) |-> Case_(args[Q[j][1]], full, SgOf(op, full, Maybe(op)), Rem0, Q[j][2], FALSE)]
       \o (IF op \in DOMAIN Defaults
           THEN [j \in 1..Len(args) |-> Case_(args[j], Defaults[op], << >>, Rem0, TRUE, TRUE)] ELSE << >>)
Cases == Cat([j \in 1..20 |-> CasesOf((Ops \o BridgeOps)[j])])
Header == [keys |-> KeyBytes]

-----------------------------------------------------------------------------
Swap(r) == [j \in 1..Len(r) |-> Mt(r[j].k, r[j].w, r[j].s)]
Seeds == << << << 97, 98 >>, << 1, 2 >> >>, << << 99 >> >> >>
Set_(s) == {s[j] : j \in 1..Len(s)}
\* known finding: the CPI builders take the flags of a remaining account as (writable, signer) and use them as (signer, writable)
OutGood(c, o) ==
    /\ o.ok
    /\ o.prog = ProgOf(c.op)
    /\ o.data = Data(c)
    /\ \/ o.metas = Metas(c) \o c.rem
       \/ o.way = "cpibuilder" /\ o.metas = Metas(c) \o Swap(c.rem)
    /\ o.way \in {"cpi", "cpibuilder"} =>
         /\ {ProgOf(c.op)} \cup (Set_(c.acc) \ {"-"}) \cup {c.rem[j].k : j \in 1..Len(c.rem)} \subseteq Set_(o.infos)
         /\ o.seeds = (IF c.lazy THEN << >> ELSE Seeds)
Good(c, o) == Len(o.outs) = 4 /\ \A j \in 1..4 : OutGood(c, o.outs[j])
\* two instructions that differ in operation or arguments differ on the wire
SpecGood(c) == Len(Metas(c)) = Len(c.acc) /\ Data(c)[1] = Tag(c.op)
=============================================================================
