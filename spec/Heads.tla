-------------------------------- MODULE Heads --------------------------------
(* The header of an account and what its readers see.                       *)
EXTENDS Ext, Tier, TLC, FiniteSets, SequencesExt, Bitwise

Key(i) == [j \in 1..32 |-> (i * 31 + j * 7) % 256]
Ones(n) == [j \in 1..n |-> 255]
Str(n) == [i \in 1..n |-> 97 + (i % 26)]
Utf == << 195, 169, 240, 159, 152, 128, 32, 226, 130, 172 >>
Keys_ == {Key(1), Ones(32), Zero(32), << 1 >> \o Zero(31), Zero(31) \o << 1 >>, KB("NIFTY")}
B(disc, st, std, mut, o, g, a, da, dr, n, x) ==
    [k |-> "base", disc |-> disc, st |-> st, std |-> std, mut |-> mut, owner |-> o, group |-> g, auth |-> a, da |-> da, dr |-> dr,
     name |-> n, extra |-> x]
Names_ == {<< >>, << 65 >>, Utf, Str(34), Str(35)}
Pick(S) == RandomElement(S)
RB(n) == [j \in 1..n |-> Pick(0..255)]
Bases ==
    SetToSeq({B(d, s, t, m, Key(1), Key(2), Key(3), Key(4), r, << 65 >>, 0) : d \in 0..1, s \in 0..1, t \in 0..3, m \in BOOLEAN, r \in 0..7})
    \o SetToSeq({B(1, 0, 0, TRUE, o, g, a, da, 5, Utf, x) : o \in Keys_, g \in Keys_, a \in {Key(3), Zero(32)}, da \in Keys_, x \in {0, 8}})
    \o SetToSeq({B(1, 1, 2, FALSE, Key(1), Zero(32), Key(3), Zero(32), 0, n, x) : n \in Names_, x \in {0, 16, 100}})
    \o [j \in 1..(IF Deep THEN 2000 ELSE 100) |->
          B(1, Pick(0..1), Pick(0..3), Pick(BOOLEAN), RB(32), RB(32), RB(32), RB(32), Pick(0..7), LET n == Pick(0..35) IN [l \in 1..n |-> Pick(1..127)], Pick(0..3))]

EncBase(c) == << c.disc, c.st, c.std, IF c.mut THEN 1 ELSE 0 >> \o c.owner \o c.group \o c.auth \o c.da \o << c.dr >>
              \o c.name \o Zero(35 - Len(c.name)) \o Zero(c.extra)
RoleList(m) == IF m = 0 THEN << 0 >>
               ELSE (IF m & 1 # 0 THEN << 1 >> ELSE << >>) \o (IF m & 2 # 0 THEN << 2 >> ELSE << >>) \o (IF m & 4 # 0 THEN << 3 >> ELSE << >>)
\* an absent group or delegate is the zero key
View(c) == [disc |-> c.disc, st |-> c.st, std |-> c.std, mut |-> c.mut, owner |-> c.owner, group |-> NonZero(c.group),
            auth |-> c.auth, da |-> NonZero(c.da), roles |-> RoleList(c.dr), name |-> c.name]
=============================================================================
