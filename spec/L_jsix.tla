------------------------------- MODULE L_jsix -------------------------------
(* Instructions assembled by the JavaScript clients.  The identity of their *)
(* context is u1, its payer u2.                                             *)
EXTENDS Wire

\* the content of every type of extension, and its bytes (module Ext)
E == INSTANCE Contents
Str(n) == [j \in 1..n |-> 97 + (j % 26)]
Utf == << 195, 169, 240, 159, 152, 128 >>
Rems == << << >>, << Mt("u6", FALSE, TRUE) >>, << Mt("x1", TRUE, FALSE), Mt("u5", FALSE, FALSE), Mt("k1", TRUE, TRUE) >> >>
Pool == << "A", "u1", "u2", "G", "u3", "u4", "k2", "B", "H", "PX", "PY", "x2", "y1", "F1", "M1", "M2", "D1", "D2", "V1", "W1" >>

Tab(op) == IF op = "PCreate"
           THEN << Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE), Ac("n", FALSE, FALSE), Ac("y", FALSE, FALSE),
                   Ac("y", TRUE, TRUE), Ac("n", FALSE, TRUE), Ac("n", FALSE, FALSE) >>
           ELSE AccTab[op]
NAcc(op) == Len(Tab(op))
\* who is taken when an account is left out: << position, name, signs >>
Id(j) == << j, "u1", TRUE >>
Fill(op) ==
    CASE op = "Create" -> {Id(2), << 3, "u1", FALSE >>}
      [] op \in {"Approve", "Lock", "Revoke", "Transfer", "Unlock", "Update", "Handover"} -> {Id(2)}
      [] op \in {"Group", "Ungroup"} -> {Id(3)}
      [] op = "Remove" -> {Id(2), << 4, "u1", FALSE >>}
      [] op = "Resize" -> {Id(2), << 3, "u2", TRUE >>}
      [] op = "PCreate" -> {<< 1, "Z", FALSE >>, << 4, "u1", TRUE >>, << 7, "NIFTY", FALSE >>}
      [] op = "BCreate" -> {<< 1, "W1", FALSE >>, << 2, "V1", FALSE >>, << 4, "D1", FALSE >>, << 5, "u1", TRUE >>, << 7, "u2", TRUE >>, << 8, "SYS", FALSE >>, << 9, "NIFTY", FALSE >>}
      [] OTHER -> {}
\* a system program comes along with a payer: << payer, system program >>
SysAt(op) == CASE op = "Create" -> << 6, 7 >> [] op = "Allocate" -> << 2, 3 >> [] op = "Update" -> << 5, 6 >>
               [] op = "Resize" -> << 3, 4 >> [] op = "PCreate" -> << 5, 6 >> [] OTHER -> << 0, 0 >>
Filled(op, acc) == LET s == SysAt(op) IN
    [j \in 1..Len(acc) |-> IF j = s[2] /\ acc[j] = "-" /\ acc[s[1]] # "-" THEN "SYS" ELSE acc[j]]
OptOf(op) == {j \in 1..NAcc(op) : Tab(op)[j].o}
MaybeOf(op) == {j \in 1..NAcc(op) : Tab(op)[j].s = "?"}
Accs(op, S, r) == [j \in 1..NAcc(op) |-> IF Tab(op)[j].o /\ j \notin S THEN "-" ELSE Pool[((j + r - 1) % Len(Pool)) + 1]]

\* extensions: content and bytes
Xc(t) == [t |-> t, c |-> E!Sample[t]]
Xi(t) == X(t, E!EncX(t, E!Sample[t]))
Xl == {Xc(t) : t \in 1..11} \cup {[t |-> T_Bucket, c |-> [data |-> E!Raw(300)]], [t |-> T_Blob, c |-> [ct |-> << >>, data |-> << >>]]}
Bytes(x) == X(x.t, E!EncX(x.t, x.c))
A_(i, cs, bare) == [x \in DOMAIN i \cup {"cs", "bare"} |-> IF x = "cs" THEN cs ELSE IF x = "bare" THEN bare ELSE i[x]]
BareArgs(op) ==
    CASE op = "Create" ->
        SetToSeq({A_([ICreate(<< >>, << >>, n, s, m, << >>) EXCEPT !.hx = h], << >>, FALSE) : n \in {<< >>, Name1, Utf, Str(35), Str(300)}, s \in 0..3, m \in BOOLEAN, h \in BOOLEAN}
                 \cup {A_(ICreate(<< >>, << >>, Name1, 0, TRUE, << Bytes(x) >>), << x >>, FALSE) : x \in Xl}
                 \cup {A_(ICreate(<< >>, << >>, Utf, 1, FALSE, << Xi(8), Xi(t), Xi(11) >>), << Xc(8), Xc(t), Xc(11) >>, FALSE) : t \in 1..11}
                 \cup {A_(ICreate(<< >>, << >>, Name1, 0, TRUE, << >>), << >>, TRUE)})
      [] op \in {"Approve", "Revoke"} ->
        << A_(IDel(op, << >>, << >>, TRUE, << >>), << >>, FALSE) >>
        \o SetToSeq({A_(IDel(op, << >>, << >>, FALSE, r), << >>, FALSE) : r \in {<< >>, << 0 >>, << 1 >>, << 2 >>, << 3 >>, << 1, 2 >>, << 3, 2, 1 >>, << 1, 1, 0 >>}})
      [] op = "Allocate" -> SetToSeq({A_(IAllocate(<< >>, << >>, Bytes(x)), << x >>, FALSE) : x \in Xl})
      [] op = "Update" ->
        SetToSeq({A_(IUpdate(<< >>, << >>, hn, IF hn THEN Utf ELSE << >>, hm, hm /\ m, he, IF he THEN Xi(7) ELSE NoExt), << Xc(7) >>, FALSE) :
                    hn \in BOOLEAN, hm \in BOOLEAN, m \in BOOLEAN, he \in BOOLEAN}
                 \cup {A_(IUpdate(<< >>, << >>, FALSE, << >>, FALSE, FALSE, TRUE, Bytes(x)), << x >>, FALSE) : x \in Xl}
                 \cup {A_(IUpdate(<< >>, << >>, TRUE, n, FALSE, FALSE, FALSE, NoExt), << >>, FALSE) : n \in {<< >>, Name1, Str(35), Str(300)}})
      [] op = "Remove" -> SetToSeq({A_(IRemove(<< >>, << >>, t), << >>, FALSE) : t \in 0..11})
      [] op = "Resize" -> SetToSeq({A_(IResize(<< >>, << >>, TRUE, 0), << >>, FALSE)} \cup {A_(IResize(<< >>, << >>, FALSE, v), << >>, FALSE) : v \in {0, 1, 255, 256, 10240, 65535}})
      [] op = "BCreate" -> SetToSeq({[op |-> op, acc |-> << >>, sg |-> << >>, cpi |-> FALSE, coll |-> cl, cs |-> << >>, bare |-> FALSE] : cl \in BOOLEAN})
      [] op = "BBridge" -> << [op |-> op, acc |-> << >>, sg |-> << >>, cpi |-> FALSE, std |-> 0, cs |-> << >>, bare |-> FALSE],
                              [op |-> op, acc |-> << >>, sg |-> << >>, cpi |-> FALSE, std |-> 4, cs |-> << >>, bare |-> FALSE] >>
      [] op = "PCreate" -> SetToSeq({[op |-> op, acc |-> << >>, sg |-> << >>, cpi |-> FALSE, name |-> n, cs |-> << >>, bare |-> FALSE] : n \in {<< >>, Name1, Utf, Str(35)}})
      [] OTHER -> << A_(I0(op, << >>, << >>), << >>, FALSE) >>

\* acc: the accounts expected; omit: those not given; flags: those given as signers
Case_(i, acc, omit, sgs, rem, proxy, pda) ==
    [x \in DOMAIN i \cup {"k", "rem", "omit", "flags", "proxy", "pda"} |->
        CASE x = "k" -> "ix" [] x = "rem" -> rem [] x = "omit" -> SetToSeq(omit) [] x = "proxy" -> proxy [] x = "pda" -> pda
          [] x = "flags" -> [j \in 1..Len(acc) |-> Tab(i.op)[j].s = "y" \/ j \in sgs]
          [] x = "acc" -> acc [] OTHER -> i[x]]
Put(acc, S) == [j \in 1..Len(acc) |-> IF \E f \in S : f[1] = j THEN (CHOOSE f \in S : f[1] = j)[2] ELSE acc[j]]
Proxied == {"Burn", "Approve", "Lock", "Revoke", "Transfer", "Unlock", "Unverify", "Update", "Verify", "Group", "Ungroup", "Handover", "Remove", "Resize"}
CasesOf(op) ==
    LET args == BareArgs(op)
        prox == IF op \in Proxied THEN {"-", "PROXY", "PX"} ELSE {"-"}
        F0 == IF op = "BCreate" THEN {{}, Fill(op), {<< 4, "D1", FALSE >>, << 7, "u2", TRUE >>}, {<< 1, "W1", FALSE >>, << 5, "u1", TRUE >>}}
              ELSE IF op = "PCreate" THEN {{}, Fill(op), {<< 1, "Z", FALSE >>}} ELSE SUBSET Fill(op)
        P == SetToSeq((SUBSET OptOf(op)) \X (SUBSET MaybeOf(op)) \X F0 \X prox \X (1..3) \X BOOLEAN)
        \* bridge and proxy: the addresses derived are those of the first mint and stub
        fixed(a) == IF op = "BCreate" THEN [a EXCEPT ![3] = "M1"] ELSE IF op = "PCreate" THEN [a EXCEPT ![2] = "k1"] ELSE a
        mk(x, n) == LET acc == Put(fixed(Accs(op, x[1], (n * 5) % 17)), x[3]) IN
                    Case_(args[((n - 1) % Len(args)) + 1], acc, {f[1] : f \in x[3]}, x[2] \cup {f[1] : f \in {g \in x[3] : g[3]}}, Rems[x[5]], x[4], x[6])
        full == fixed(Accs(op, OptOf(op), 0))
    IN (IF op = "BBridge" THEN << >> ELSE [n \in 1..Len(P) |-> mk(P[n], n)])
       \o [n \in 1..Len(args) |-> Case_(args[n], full, {}, {}, << >>, "-", FALSE)]
\* the bridge with everything derived
Ed == "TM(metadata/TM/M1/edition)"
Rules == "auth9SigNpDKz4sJJ1DfCTuZrZNSAgh9sFD3rboVmgg"
Ata(o) == "ATA(" \o o \o "/TOKEN/M1)"
Rec(t) == "TM(metadata/TM/M1/token_record/" \o t \o ")"
Derived(std, o) ==
    << "W1", "V1", o, Ata(o), "M1", "D1", Ed, IF std = 4 THEN Rec(Ata(o)) ELSE "-", Ata("V1"), IF std = 4 THEN Rec(Ata("V1")) ELSE "-", "u2", "NIFTY", "TM", "SYS", "SIV",
       "TOKEN", "ATA", IF std = 4 THEN Rules ELSE "-", "-", "-" >>
BDerived == LET a == BareArgs("BBridge")
                S == SetToSeq((1..2) \X {"u3", "u4"} \X BOOLEAN)
            IN [n \in 1..Len(S) |->
                  LET i == a[S[n][1]]
                      acc == IF S[n][3] THEN [Derived(i.std, S[n][2]) EXCEPT ![20] = "G", ![19] = "x1"] ELSE Derived(i.std, S[n][2])
                  IN Case_(i, acc, 1..18 \ {3, 5}, {}, << >>, "-", FALSE)]
\* the chunks of a larger upload; without a payer, the context's
WriteCases ==
    LET S == SetToSeq({0, 1, 2, 9, 10, 11, 850, 851, 1700, 1701, 2600} \X {0, 1, 7, 10, 900} \X BOOLEAN)
    IN [n \in 1..Len(S) |->
          LET i == A_(IWrite(<< >>, << >>, TRUE, [j \in 1..(IF S[n][2] = 1 THEN S[n][1] % 30 ELSE S[n][1]) |-> (j * 37) % 256]), << >>, FALSE)
              c == Case_(i, << "A", IF S[n][3] THEN "u2" ELSE "u4", "SYS" >>, IF S[n][3] THEN {2, 3} ELSE {3}, {}, << >>, "-", FALSE)
          IN [x \in DOMAIN c \cup {"chunk"} |-> IF x = "chunk" THEN S[n][2] ELSE IF x = "k" THEN "write" ELSE c[x]]]
JsOps == << "Close", "Burn", "Create", "Approve", "Allocate", "Lock", "Revoke", "Transfer", "Unlock", "Unverify", "Update", "Verify",
            "Group", "Ungroup", "Handover", "Remove", "Resize", "PCreate", "BCreate", "BBridge" >>
Cases == Cat([j \in 1..Len(JsOps) |-> CasesOf(JsOps[j])]) \o BDerived \o WriteCases
Header == [keys |-> KeyBytes]

-----------------------------------------------------------------------------
Prog(c) == IF c.proxy # "-" THEN c.proxy ELSE IF c.op = "PCreate" THEN "PROXY" ELSE ProgOf(c.op)
JMetas(c) ==
    LET acc == Filled(c.op, c.acc) IN
    [j \in 1..Len(acc) |-> IF acc[j] = "-" THEN Mt(Prog(c), FALSE, FALSE) ELSE Mt(acc[j], c.flags[j], Tab(c.op)[j].w)]
\* a proxy is told where the asset program is
Behind(c) == IF c.proxy = "-" THEN << >> ELSE << Mt("NIFTY", FALSE, FALSE) >>
JData(c) == IF c.op = "PCreate" THEN << 0 >> \o V8(c.name) ELSE Data(c)
Wrote(c, o) ==
    LET n == Len(o.steps)
        ow(j) == Bit(j = 1)
        d(j) == o.steps[j].data
        part(j) == SubSeq(d(j), 7, Len(d(j)))
        limit == IF c.chunk = 0 THEN 850 ELSE c.chunk
    IN /\ Cat([j \in 1..n |-> part(j)]) = c.d
       /\ \A j \in 1..n : /\ o.steps[j].prog = "NIFTY"
                          /\ o.steps[j].metas = JMetas(c)
                          /\ o.steps[j].signed
                          /\ d(j) = << Tag("Write") >> \o ow(j) \o V8(part(j))
                          /\ Len(part(j)) \in 1..limit
Good(c, o) ==
    /\ o.ok
    /\ IF c.k = "write" THEN Wrote(c, o)
       ELSE /\ Len(o.steps) = 1
            /\ o.steps[1].prog = Prog(c)
            /\ o.steps[1].metas = JMetas(c) \o Behind(c) \o c.rem
            /\ o.steps[1].data = JData(c)
            /\ o.steps[1].signed
SpecGood(c) == Len(JMetas(c)) = Len(c.acc)
=============================================================================
