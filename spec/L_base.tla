-------------------------------- MODULE L_base --------------------------------
(* The header of an account, read by the program's type and by the client's; *)
(* extension contents described in the client's JSON form.                   *)
EXTENDS Heads

\* JSON descriptions; a pair list serves attributes and links
Pair(a, b) == [a |-> a, b |-> b]
Lens == {0, 1, 7, 200, 255}
J(t, c) == [k |-> "json", t |-> t, c |-> c]
\* the rest of the description it is part of
FNames == << << >>, << 65 >>, Utf, Str(35), Str(60), << 34, 92, 10, 47 >> >>
File(j, c) == [k |-> c.k, t |-> c.t, c |-> c.c, name |-> FNames[1 + (j % 6)], std |-> j % 4, mut |-> (j % 3) # 0, owner |-> Key(j)]
Pairs_ == {<< >>} \cup {<< Pair(Str(a), Str(b)) >> : a \in Lens, b \in Lens} \cup {<< Pair(Str(a), Utf), Pair(Utf, Str(b)), Pair(Str(1), << >>) >> : a \in Lens, b \in Lens}
Cr(i, v, s) == [key |-> Key(i), ver |-> v, share |-> s]
Roy(al, bp, items) == [al |-> al, bp |-> bp, items |-> items]
Jsons == TLCEval(
    SetToSeq({J(T_Attributes, p) : p \in Pairs_}) \o SetToSeq({J(T_Links, p) : p \in Pairs_})
    \o SetToSeq({J(T_Creators, c) : c \in {<< >>, << Cr(1, 0, 100) >>, << Cr(1, 1, 255), Cr(2, 0, 0) >>, [j \in 1..40 |-> Cr(j, j % 2, j)]}})
    \o SetToSeq({J(T_Metadata, << a, b, c >>) : a \in {<< >>, Str(3), Utf, Str(255)}, b \in {<< >>, Str(200)}, c \in {<< >>, Str(255)}})
    \o SetToSeq({J(T_Blob, [ct |-> s, data |-> d]) : s \in {<< >>, Str(9), Str(255)}, d \in {<< >>, << 0 >>, [j \in 1..700 |-> (j * 37) % 256]}})
    \o SetToSeq({J(T_Royalties, Roy(al, bp, it)) : al \in BOOLEAN, bp \in {Zero(8), B64(500), Ones(8)}, it \in {<< >>, << "u1" >>, << "PX", "u2", "u3" >>}}))

Header == [keys |-> KeyBytes]

-----------------------------------------------------------------------------
EncJson(c) ==
    CASE c.t = T_Metadata -> {PStr(c.c[1]) \o PStr(c.c[2]) \o PStr(c.c[3])}
      [] c.t = T_Royalties -> {c.c.bp \o Enc(IF c.c.al THEN TMatch(w, c.c.items) ELSE TNot(TOwned(w, c.c.items))) : w \in 0..2}
      [] OTHER -> {EncX(c.t, c.c)}
SpecGood(c) == c.k = "base" => Len(EncBase(c)) = 168 + c.extra
Good(c, o) ==
    IF c.k = "base" THEN o.prog = View(c) /\ o.client = View(c) /\ o.written = EncBase([c EXCEPT !.extra = 0]) /\ o.json
    ELSE /\ o.ok /\ o.d \in EncJson(c) /\ o.back
         \* the same, read from a JSON document
         /\ o.file = [ok |-> TRUE, name |-> c.name, std |-> c.std, mut |-> c.mut, owner |-> c.owner, t |-> c.t, d |-> o.d, again |-> TRUE]
Cases == LET bs == TLCEval(Bases) IN [j \in 1..Len(bs) |-> LET b == bs[j] IN [x \in DOMAIN b \cup {"d"} |-> IF x = "d" THEN EncBase(b) ELSE b[x]]] \o [j \in 1..Len(Jsons) |-> File(j, Jsons[j])]
=============================================================================
