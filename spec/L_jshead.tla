------------------------------- MODULE L_jshead -------------------------------
(* The header of an account and the bridge's vault, read by the JavaScript  *)
(* clients, and the filters with which they search for accounts.            *)
EXTENDS Heads

Header == [keys |-> KeyBytes]
VaultD(c) == << 1, c.st, c.bump >> \o c.mint \o << c.abump >>
Vaults == SetToSeq({[k |-> "vault", st |-> s, bump |-> b, mint |-> m, abump |-> a] : s \in 0..1, b \in {0, 1, 254, 255}, m \in Keys_, a \in {0, 255}})
Given(c, d) == [x \in DOMAIN c \cup {"d"} |-> IF x = "d" THEN d ELSE c[x]]
Cases == LET bs == TLCEval(SelectSeq(Bases, LAMBDA b : b.disc = 1))
         IN [j \in 1..Len(bs) |-> Given(bs[j], EncBase(bs[j]))] \o [j \in 1..Len(Vaults) |-> Given(Vaults[j], VaultD(Vaults[j]))]
SpecGood(c) == c.k = "vault" \/ Len(EncBase(c)) = 168 + c.extra

\* discriminator, state, standard, mutable, owner, group, authority, delegate, roles, name
Widths == << 1, 1, 1, 1, 32, 32, 32, 32, 1, 35 >>
Offs == << 0, 1, 2, 3, 4, 36, 68, 100, 132, 133 >>
HeadView(c) ==
    LET v == View(c) IN
    [disc |-> v.disc, st |-> v.st, std |-> v.std, mut |-> v.mut, owner |-> v.owner, group |-> v.group, auth |-> v.auth, da |-> v.da,
     roles |-> IF v.da = << >> THEN << >> ELSE v.roles, name |-> v.name, exts |-> 0]
Good(c, o) ==
    /\ o.ok
    /\ IF c.k = "vault" THEN o.view = [st |-> c.st, bump |-> c.bump, mint |-> c.mint, abump |-> c.abump] /\ o.written = c.d
       ELSE /\ o.view = HeadView(c)
            /\ o.prog
            /\ Len(o.filters) = 10
            \* a filter for the value an account has matches the account
            /\ \A j \in 1..10 : /\ o.filters[j].off = Offs[j]
                                /\ Len(o.filters[j].d) = Widths[j]
                                /\ o.filters[j].d = SubSeq(c.d, Offs[j] + 1, Offs[j] + Widths[j])
=============================================================================
