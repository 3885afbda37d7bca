-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Constraint trees: their meaning over the asset, authority and recipient *)
(* accounts of an action, and their byte encoding.  The recipient may be   *)
(* absent (actions other than a transfer).                                 *)
(***************************************************************************)
EXTENDS Codec

Node(op, kids, who, keys) == [op |-> op, kids |-> kids, who |-> who, keys |-> keys]
TAnd(kids) == Node("and", kids, 0, << >>)
TOr(kids) == Node("or", kids, 0, << >>)
TNot(t) == Node("not", << t >>, 0, << >>)
TEmpty == Node("empty", << >>, 0, << >>)
TOwned(who, keys) == Node("owned", << >>, who, keys)
TMatch(who, keys) == Node("match", << >>, who, keys)

\* concatenation of a sequence of sequences
RECURSIVE CatRange(_, _, _)
CatRange(f, i, j) == IF i > j THEN << >> ELSE IF i = j THEN f[i]
                     ELSE CatRange(f, i, (i + j) \div 2) \o CatRange(f, (i + j) \div 2 + 1, j)
Cat(f, j) == CatRange(f, j, Len(f))
KeyCat(keys) == Cat([j \in 1..Len(keys) |-> KB(keys[j])], 1)

RECURSIVE Enc(_)
Enc(t) ==
    CASE t.op \in {"and", "or"} ->
            COp(IF t.op = "and" THEN OpAnd ELSE OpOr, Cat([j \in 1..Len(t.kids) |-> Enc(t.kids[j])], 1))
      [] t.op = "not" -> COp(OpNot, Enc(t.kids[1]))
      [] t.op = "empty" -> CEmpty
      [] OTHER -> COp(IF t.op = "owned" THEN OpOwnedBy ELSE OpPubkeyMatch, B64(t.who) \o KeyCat(t.keys))

In(x, s) == \E j \in 1..Len(s) : s[j] = x

\* c: [acc |-> << asset, authority, recipient >> (each [key, own, emp]), rec |-> is there a recipient]
\* 1 holds, 0 does not, 2 depends on the absent recipient
RECURSIVE Sem(_, _)
Sem(t, c) ==
    LET v == [j \in 1..Len(t.kids) |-> Sem(t.kids[j], c)]
        a == c.acc[t.who + 1]
    IN CASE t.op = "and" -> IF In(0, v) THEN 0 ELSE IF In(2, v) THEN 2 ELSE 1
         [] t.op = "or" -> IF In(1, v) THEN 1 ELSE IF In(2, v) THEN 2 ELSE 0
         [] t.op = "not" -> IF v[1] = 2 THEN 2 ELSE 1 - v[1]
         [] t.op = "empty" -> 1
         [] t.who = 2 /\ ~ c.rec -> 2
         [] t.op = "owned" -> IF In(a.own, t.keys) /\ ~ a.emp THEN 1 ELSE 0
         [] OTHER -> IF In(a.key, t.keys) THEN 1 ELSE 0

RECURSIVE Mentions(_)
Mentions(t) == \/ t.op \in {"owned", "match"} /\ t.who = 2
               \/ \E j \in 1..Len(t.kids) : Mentions(t.kids[j])

\* results an evaluation may have: 1 pass, 0 failure, 2 refused for lack of a recipient
Results(t, c) == IF ~ c.rec /\ Mentions(t) THEN {Sem(t, c), 2} ELSE {Sem(t, c)}

RECURSIVE Size(_)
Size(t) == LET s == [j \in 1..Len(t.kids) |-> Size(t.kids[j])]
               RECURSIVE sum(_)
               sum(j) == IF j > Len(s) THEN 1 ELSE s[j] + sum(j + 1)
           IN sum(1)

\* exactly the encodings: no slack anywhere
RECURSIVE Exact(_, _, _), ExactList(_, _, _)
Exact(d, o, e) ==
    /\ ConstraintOK(d, o, e)
    /\ o + 8 + U32(d, o + 4) = e
    /\ CASE U32(d, o) \in {OpAnd, OpOr} -> ExactList(d, o + 8, e)
         [] U32(d, o) = OpNot -> Exact(d, o + 8, e)
         [] U32(d, o) = OpEmpty -> e = o + 8
         [] OTHER -> TRUE
ExactList(d, o, e) ==
    IF o >= e THEN TRUE
    ELSE Exact(d, o, o + 8 + U32(d, o + 4)) /\ ExactList(d, o + 8 + U32(d, o + 4), e)
=============================================================================
