-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* How an instruction of the specification travels: the account metas and  *)
(* the data bytes that reach the program, and the size of the transaction. *)
(***************************************************************************)
EXTENDS Gen

\* per account: is it signed for ("y", "n", "?" = as the caller says), writable, optional
Ac(s, w, o) == [s |-> s, w |-> w, o |-> o]
AccTab == [
  Close    |-> << Ac("y", TRUE, FALSE), Ac("n", TRUE, FALSE) >>,
  Burn     |-> << Ac("n", TRUE, FALSE), Ac("y", TRUE, FALSE), Ac("n", TRUE, TRUE), Ac("n", TRUE, TRUE) >>,
  Create   |-> << Ac("y", TRUE, FALSE), Ac("?", FALSE, FALSE), Ac("n", FALSE, FALSE), Ac("n", TRUE, TRUE),
                  Ac("y", FALSE, TRUE), Ac("y", TRUE, TRUE), Ac("n", FALSE, TRUE) >>,
  Approve  |-> << Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE), Ac("n", FALSE, FALSE) >>,
  Allocate |-> << Ac("y", TRUE, FALSE), Ac("y", TRUE, TRUE), Ac("n", FALSE, TRUE) >>,
  Lock     |-> << Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE) >>,
  Revoke   |-> << Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE) >>,
  Transfer |-> << Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE), Ac("n", FALSE, FALSE), Ac("n", FALSE, TRUE) >>,
  Unlock   |-> << Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE) >>,
  Unverify |-> << Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE) >>,
  Update   |-> << Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE), Ac("n", TRUE, TRUE), Ac("n", FALSE, TRUE),
                  Ac("y", TRUE, TRUE), Ac("n", FALSE, TRUE) >>,
  Verify   |-> << Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE) >>,
  Write    |-> << Ac("y", TRUE, FALSE), Ac("y", TRUE, FALSE), Ac("n", FALSE, FALSE) >>,
  Group    |-> << Ac("n", TRUE, FALSE), Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE) >>,
  Ungroup  |-> << Ac("n", TRUE, FALSE), Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE) >>,
  Handover |-> << Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE), Ac("y", FALSE, FALSE) >>,
  Remove   |-> << Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE), Ac("n", FALSE, TRUE), Ac("n", TRUE, FALSE) >>,
  Resize   |-> << Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE), Ac("?", TRUE, FALSE), Ac("n", FALSE, TRUE) >>,
  \* the bridge
  BBridge  |-> << Ac("n", TRUE, FALSE), Ac("n", TRUE, FALSE), Ac("y", FALSE, FALSE), Ac("n", TRUE, FALSE), Ac("n", FALSE, FALSE),
                  Ac("n", TRUE, FALSE), Ac("n", FALSE, FALSE), Ac("n", TRUE, TRUE), Ac("n", TRUE, FALSE), Ac("n", TRUE, TRUE),
                  Ac("y", TRUE, FALSE), Ac("n", FALSE, FALSE), Ac("n", FALSE, FALSE), Ac("n", FALSE, FALSE), Ac("n", FALSE, FALSE),
                  Ac("n", FALSE, FALSE), Ac("n", FALSE, FALSE), Ac("n", FALSE, TRUE), Ac("n", FALSE, TRUE), Ac("n", FALSE, TRUE) >>,
  BCreate  |-> << Ac("n", TRUE, FALSE), Ac("n", TRUE, FALSE), Ac("n", FALSE, FALSE), Ac("n", FALSE, FALSE), Ac("?", FALSE, FALSE),
                  Ac("n", FALSE, TRUE), Ac("y", TRUE, FALSE), Ac("n", FALSE, FALSE), Ac("n", FALSE, FALSE) >>
  ]
Ops == << "Close", "Burn", "Create", "Approve", "Allocate", "Lock", "Revoke", "Transfer", "Unlock", "Unverify",
          "Update", "Verify", "Write", "Group", "Ungroup", "Handover", "Remove", "Resize" >>
BridgeOps == << "BBridge", "BCreate" >>
ProgOf(op) == IF op \in {"BBridge", "BCreate"} THEN "BRIDGE" ELSE "NIFTY"
Tag(op) == IF ProgOf(op) = "BRIDGE" THEN (CHOOSE j \in 1..2 : BridgeOps[j] = op) - 1 ELSE (CHOOSE j \in 1..18 : Ops[j] = op) - 1

Mt(k, s, w) == [k |-> k, s |-> s, w |-> w]
\* an optional account that is not given is the program itself
Metas(i) ==
    [j \in 1..Len(AccTab[i.op]) |->
        LET a == AccTab[i.op][j] IN
        IF i.acc[j] = "-" THEN Mt(ProgOf(i.op), FALSE, FALSE)
        ELSE Mt(i.acc[j], a.s = "y" \/ (a.s = "?" /\ Sg(i, i.acc[j])), a.w)]

V8(d) == B32(Len(d)) \o d
Bit(b) == IF b THEN << 1 >> ELSE << 0 >>
EncExt(e) == << e.t >> \o B32(e.n) \o (IF e.hd THEN << 1 >> \o V8(e.d) ELSE << 0 >>)
RECURSIVE EncExts(_, _)
EncExts(es, j) == IF j > Len(es) THEN << >> ELSE EncExt(es[j]) \o EncExts(es, j + 1)
Data(i) ==
    << Tag(i.op) >> \o
    CASE i.op = "Create" -> V8(i.name) \o << i.std >> \o Bit(i.mut)
                            \o (IF i.hx THEN << 1 >> \o B32(Len(i.exts)) \o EncExts(i.exts, 1) ELSE << 0 >>)
      [] i.op \in {"Approve", "Revoke"} -> IF i.all THEN << 0 >> ELSE << 1 >> \o V8(i.roles)
      [] i.op = "Allocate" -> EncExt(i.e)
      [] i.op = "Update" -> (IF i.hn THEN << 1 >> \o V8(i.name) ELSE << 0 >>)
                            \o (IF i.hm THEN << 1 >> \o Bit(i.mut) ELSE << 0 >>)
                            \o (IF i.he THEN << 1 >> \o EncExt(i.e) ELSE << 0 >>)
      [] i.op = "Write" -> Bit(i.ow) \o V8(i.d)
      [] i.op = "BCreate" -> Bit(i.coll)
      [] i.op = "Remove" -> << i.t >>
      [] i.op = "Resize" -> IF i.trim THEN << 0 >> ELSE << 1, i.v % 256, i.v \div 256 >>
      [] OTHER -> << >>

-----------------------------------------------------------------------------
(* sizes: a transaction with one instruction, paid for by p, and the       *)
(* instruction of a cross-program invocation                               *)
Compact(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE 3
TxSize(ms, n, p) ==
    LET ks == {ms[j].k : j \in 1..Len(ms)} \cup {p, "NIFTY"}
        ss == {ms[j].k : j \in {l \in 1..Len(ms) : ms[l].s}} \cup {p}
    IN Compact(Cardinality(ss)) + 64 * Cardinality(ss) + 3 + Compact(Cardinality(ks)) + 32 * Cardinality(ks) + 32
       + 1 + 1 + Compact(Len(ms)) + Len(ms) + Compact(n) + n
MaxTx == 1232
CpiSize(ms, n) == 34 * Len(ms) + n
MaxCpi == 1280
=============================================================================
