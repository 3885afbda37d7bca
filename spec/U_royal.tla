-------------------------------- MODULE U_royal --------------------------------
(* Royalty enforcement: constraints of the asset or of its group, direct and   *)
(* cross-program transfers, wallets and program-owned parties.                 *)
EXTENDS Gen

Leaves == {CMatch(2, "x1"), CMatch(1, "u1"), CMatch(0, "A"), CMatch2(2, "u2", "y1"), COwnedBy(2, "PX"), COwnedBy(1, "PX"),
           COwnedBy(0, "NIFTY"), COwnedBy(2, "SYS"), CEmpty}
Trees == Leaves \cup {CNot(c) : c \in Leaves}
     \cup {CAnd(<< >>), COr(<< >>), CNot(CAnd(<< >>)),
           CAnd(CMatch(2, "x1") \o CMatch(1, "u1")), COr(CMatch(2, "x1") \o CMatch(1, "u1")),
           CAnd(COwnedBy(2, "PX") \o CNot(CMatch(1, "u1"))), COr(CNot(COwnedBy(2, "PX")) \o CAnd(CMatch(1, "u1") \o CEmpty)),
           CNot(COr(CMatch(2, "x1") \o CMatch(2, "y1"))), CNot(CNot(CMatch(2, "x1"))),
           CAnd(CEmpty \o COr(COwnedBy(2, "PY") \o CMatch2(2, "u2", "x2")) \o CNot(CMatch(1, "x1"))),
           COr(CAnd(COwnedBy(1, "PX") \o COwnedBy(2, "PY")) \o CAnd(CMatch(1, "u1") \o CMatch(2, "u2")))}
Few == {CMatch(2, "x1"), CNot(CMatch(2, "x1")), COwnedBy(2, "PX"), CNot(CEmpty)}
Ro(c) == X(T_Royalties, Royalties(100, c))
As(o, es) == Asset(0, TRUE, o, "u4", Name1, es)
InG(a) == [a EXCEPT !.group = "G"]
Grp(es, n) == As("u1", << X(T_Grouping, SetGSize(Grouping(0, "SYS"), n)) >> \o es)
Bk == X(T_Bucket, << 1, 2, 3 >>)
Inits == {[A |-> As(o, << Bk, Ro(c) >>), G |-> NONE, H |-> NONE] : o \in {"u1", "x1"}, c \in Trees}
    \cup {[A |-> InG(As(o, << >>)), G |-> Grp(es, 1), H |-> NONE] : o \in {"u1", "x1"}, es \in {<< Ro(c) >> : c \in (IF Deep THEN Trees ELSE Few)} \cup {<< >>}}
    \cup {[A |-> InG(As("u1", << Ro(c) >>)), G |-> Grp(<< Ro(d) >>, 1), H |-> NONE] : c \in Few, d \in Few}
    \cup {[A |-> As("u1", << >>), G |-> Grp(<< Ro(c) >>, 0), H |-> NONE] : c \in Few}
    \cup {[A |-> [As("u1", << Ro(c) >>) EXCEPT !.da = d, !.dr = 1], G |-> NONE, H |-> NONE] : c \in Few, d \in {"u3", "x1"}}
    \cup {[A |-> [InG(As("u1", << >>)) EXCEPT !.da = d, !.dr = 1], G |-> Grp(<< Ro(c) >>, 1), H |-> NONE] : c \in Few, d \in {"u3", "x1"}}
    \cup {[A |-> InG(As(o, << >>)), G |-> Grp(<< Ro(c) >>, 1), H |-> h] : o \in {"u1", "x1"}, c \in Few, h \in {Grp(<< >>, 0), Grp(<< Ro(CEmpty) >>, 0)}}
Bound(s) == TRUE

To == {"u1", "u2", "x1", "x2", "y1", "A", "G"}
Tf(u, to, g, sg) == I0("Transfer", << "A", u, to, g >>, sg)
Instrs == Cat(<<
    Seq_({Tf(u, to, g, << u >>) : u \in {"u1", "x1", "u3"}, to \in To, g \in {"-", "G", "H", "F1"}}),
    Seq_({ViaCpi(Tf(u, to, g, << u >>)) : u \in {"u1", "x1", "u3"}, to \in To, g \in {"-", "G", "H", "F1"}}),
    Seq_({ViaCpi(Tf("u1", to, "G", << "u3" >>)) : to \in {"u2", "x1"}}),
    << I0("Ungroup", << "A", "G", "u4" >>, << "u4" >>), I0("Group", << "A", "G", "u4" >>, << "u4" >>) >>
    >>)
=============================================================================
