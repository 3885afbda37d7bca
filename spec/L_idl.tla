-------------------------------- MODULE L_idl --------------------------------
(* Instructions, headers and extensions as a client encodes and decodes them *)
(* that knows nothing but the IDL shipped with the asset program.            *)
EXTENDS Wire, Errors
I == INSTANCE L_ix
E == INSTANCE Contents
H == INSTANCE Heads

PTab == << Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE), Ac("n", FALSE, FALSE), Ac("y", FALSE, FALSE),
           Ac("y", TRUE, TRUE), Ac("n", FALSE, TRUE), Ac("n", FALSE, FALSE) >>
\* creating a proxied asset: the name; payer and system program are optional
PCases == LET S == SetToSeq({<< >>, Name1, Name2} \X BOOLEAN \X BOOLEAN)
          IN [j \in 1..Len(S) |-> [k |-> "ix", op |-> "PCreate", name |-> S[j][1], sg |-> << >>,
                                   acc |-> << "Z", "k1", "u1", "u2", IF S[j][2] THEN "u3" ELSE "-", IF S[j][3] THEN "SYS" ELSE "-", "NIFTY" >>]]
PMetas(c) == [j \in 1..7 |-> IF c.acc[j] = "-" THEN Mt("PROXY", FALSE, FALSE) ELSE Mt(c.acc[j], PTab[j].s = "y", PTab[j].w)]
IxOf(op) ==
    LET args == I!BareArgs(op)
        P == SetToSeq((SUBSET I!Opts_(op)) \X (SUBSET I!Maybe(op)))
        mk(i, acc, T) == [x \in DOMAIN i \cup {"k"} |-> CASE x = "k" -> "ix" [] x = "acc" -> acc [] x = "sg" -> I!SgOf(op, acc, T) [] OTHER -> i[x]]
    IN [j \in 1..Len(P) |-> mk(args[((j - 1) % Len(args)) + 1], I!Accs(op, P[j][1], j % 5), P[j][2])]
       \o [j \in 1..Len(args) |-> mk(args[j], I!Accs(op, I!Opts_(op), 0), I!Maybe(op))]
Typed == << 1, 2, 3, 4, 5, 6, 8, 9, 11 >>
ExtOf(t) == LET q == SetToSeq(E!Contents(t)) IN [j \in 1..Len(q) |-> [k |-> "ext", t |-> t, c |-> q[j], d |-> E!EncX(t, q[j])]]
Cases == Cat([j \in 1..20 |-> IxOf((Ops \o BridgeOps)[j])]) \o PCases
         \o Cat([j \in 1..Len(Typed) |-> ExtOf(Typed[j])])
         \o (LET bs == TLCEval(H!Bases) IN [j \in 1..Len(bs) |-> LET b == bs[j] IN [x \in DOMAIN b \cup {"d"} |-> IF x = "d" THEN H!EncBase(b) ELSE b[x]]])
         \o ErrCases
Header == [keys |-> KeyBytes]

-----------------------------------------------------------------------------
Seen(c) == [disc |-> c.disc, st |-> c.st, std |-> c.std, mut |-> c.mut, owner |-> c.owner, group |-> H!NonZero(c.group), auth |-> c.auth,
            da |-> H!NonZero(c.da), dr |-> c.dr, name |-> c.name \o H!Zero(35 - Len(c.name))]
PData(c) == IF c.op = "PCreate" THEN << 0 >> \o V8(c.name) ELSE Data(c)
AllMetas(c) == IF c.op = "PCreate" THEN PMetas(c) ELSE Metas(c)
\* on the interface for proxies, the proxy signs for the asset
MetasBy(c, src) == IF src = "interface" THEN [AllMetas(c) EXCEPT ![1].s = TRUE] ELSE AllMetas(c)
Sources(op) == CASE op = "PCreate" -> {"proxy"} [] op \in {"BCreate", "BBridge"} -> {"bridge"} [] OTHER -> {"codama", "asset", "interface"}
SpecGood(c) == TRUE
Good(c, o) == /\ o.ok
              /\ CASE c.k = "ix" -> /\ {o.outs[j].src : j \in 1..Len(o.outs)} = Sources(c.op)
                                     /\ \A j \in 1..Len(o.outs) : o.outs[j].ok /\ o.outs[j].data = PData(c) /\ o.outs[j].metas = MetasBy(c, o.outs[j].src)
                   [] c.k = "err" -> ErrGood(c, o, CASE c.prog = "asset" -> {"codama", "asset", "js"} [] c.prog = "bridge" -> {"bridge", "js"} [] OTHER -> {"proxy", "js"})
                   [] c.k = "base" -> o.view = Seen(c)
                   [] OTHER -> o.d = c.d /\ o.same
=============================================================================
