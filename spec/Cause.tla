-------------------------------- MODULE Cause --------------------------------
(***************************************************************************)
(* What the error codes of the asset program mean: Cause(c, st, i) holds if *)
(* code c is a true reason to reject instruction i in state st.  Codes of   *)
(* the program are 0 to 21; the runtime's are negative (its n-th builtin    *)
(* code is -n); -1000 and below stand for a rejection without a code (by    *)
(* the runtime or a called program).                                        *)
(* An instruction may be wrong in several ways, and any of them may be      *)
(* reported.                                                                *)
(***************************************************************************)
EXTENDS Props

\* an absent account is passed as the address of the program
CAcc(i, j) == IF j <= Len(i.acc) THEN i.acc[j] ELSE "-"
C1(i) == CAcc(i, 1)
CElse(a, b) == IF a # "-" THEN a ELSE b

\* accounts that have to sign
CSigners(st, i) ==
    (IF IsAsset(st, C1(i)) /\ st[C1(i)].std = 3 THEN {C1(i)} ELSE {})
    \cup CASE i.op = "Close" -> {C1(i)}
           [] i.op = "Create" -> {C1(i), CAcc(i, 6)} \cup (IF Has(CAcc(i, 4)) THEN {CElse(CAcc(i, 5), CAcc(i, 2))} ELSE {})
           [] i.op = "Allocate" -> {C1(i), CAcc(i, 2)}
           [] i.op = "Write" -> {C1(i), CAcc(i, 2)}
           [] i.op \in {"Group", "Ungroup"} -> {CAcc(i, 3)}
           [] i.op = "Handover" -> {CAcc(i, 2), CAcc(i, 3)}
           [] i.op = "Update" -> {CAcc(i, 2), CAcc(i, 5)}
           [] i.op = "Resize" -> {CAcc(i, 2), CAcc(i, 3)}
           [] OTHER -> {CAcc(i, 2)}
\* accounts that have to be assets
CAssets(i) == CASE i.op \in {"Group", "Ungroup"} -> {C1(i), CAcc(i, 2)}
                [] i.op = "Create" -> {CAcc(i, 4)}
                [] i.op \in {"Close", "Allocate", "Write"} -> {}
                [] OTHER -> {C1(i)}
\* accounts that have to be the program's
COwned(st, i) == CAssets(i) \cup (IF i.op \in {"Create", "Allocate"} THEN IF NoData(st, C1(i)) THEN {} ELSE {C1(i)}
                                  ELSE IF i.op \in {"Close", "Write"} THEN {C1(i)}
                                  ELSE IF i.op = "Update" THEN {CAcc(i, 3)} ELSE {}) 
CGroup(i) == IF i.op = "Create" THEN CAcc(i, 4) ELSE IF i.op = "Burn" THEN CAcc(i, 4) ELSE CAcc(i, 2)
CGroupAuth(i) == IF i.op = "Create" THEN CElse(CAcc(i, 5), CAcc(i, 2)) ELSE CAcc(i, 3)

\* extensions given with the instruction, and those in the buffer
CGiven(i) == CASE i.op = "Create" -> IF i.hx THEN i.exts ELSE << >>
               [] i.op = "Allocate" -> << i.e >>
               [] OTHER -> << >>
CDataOf(e) == IF e.hd THEN e.d ELSE << >>
CBuf(st, k) == IF IsBuf(st, k) THEN st[k].exts ELSE << >>
CHas(st, i) == IsAsset(st, C1(i))
CTypes(st, i) == [j \in 1..Len(CBuf(st, C1(i))) |-> CBuf(st, C1(i))[j].t] \o [j \in 1..Len(CGiven(i)) |-> CGiven(i)[j].t]
CTwice(q) == \E x, y \in 1..Len(q) : x < y /\ q[x] = q[y]
CPartial(st, i) == \/ \E j \in 1..Len(CBuf(st, C1(i))) : ~ Complete(CBuf(st, C1(i))[j])
                   \/ \E j \in 1..Len(CGiven(i)) : Len(CDataOf(CGiven(i)[j])) # CGiven(i)[j].n
CWrong(st, i) ==
    LET by == IF Sg(i, CAcc(i, 2)) THEN CAcc(i, 2) ELSE "-"
        types == CTypes(st, i)
        has(t) == \E j \in 1..Len(types) : types[j] = t
    IN \/ \E j \in 1..Len(CBuf(st, C1(i))) : ~ OnCreate(CBuf(st, C1(i))[j].t, CBuf(st, C1(i))[j].d, by).ok
       \/ \E j \in 1..Len(CGiven(i)) : CGiven(i)[j].t = T_None \/ ~ OnCreate(CGiven(i)[j].t, CDataOf(CGiven(i)[j]), by).ok
       \/ (i.std = 1) # has(T_Manager)
       \/ (i.std = 3) # has(T_Proxy)
\* the extension an update brings
CNew(st, i) == IF Has(CAcc(i, 3)) THEN IF CBuf(st, CAcc(i, 3)) # << >> THEN << Head(CBuf(st, CAcc(i, 3))) >> ELSE << >>
               ELSE IF i.he THEN << [t |-> i.e.t, n |-> i.e.n, d |-> CDataOf(i.e)] >> ELSE << >>
CBadUpdate(st, i) ==
    \E x \in ToSet(CNew(st, i)) :
        \/ x.t = T_None
        \/ ~ Complete(x)
        \/ CHas(st, i) /\ LET a == st[C1(i)] IN
              IF HasExt(a, x.t) THEN ~ OnUpdate(x.t, ExtData(a, x.t), x.d, CAcc(i, 2)).ok
              ELSE x.t \in {T_Manager, T_Proxy} \/ ~ OnCreate(x.t, x.d, CAcc(i, 2)).ok
\* the data of the last extension after a write
CWritten(st, i) == LET e == Last(CBuf(st, C1(i))) IN IF i.ow THEN i.d ELSE e.d \o i.d

CNotGroupAuth(st, i) ==
    LET g == CGroup(i) u == CGroupAuth(i) IN
    IsAsset(st, g) /\ u # st[g].auth /\ (HasExt(st[g], T_Grouping) => LET d == ExtData(st[g], T_Grouping) IN GDelegate(d) = "SYS" \/ GDelegate(d) # u)
CSize(st, k, none) == IsAsset(st, k) /\ HasExt(st[k], T_Grouping) /\ (GNone(ExtData(st[k], T_Grouping)) = none)
CManager(a) == IF HasExt(a, T_Manager) THEN {<< MgrKey(ExtData(a, T_Manager)), MgrRoles(ExtData(a, T_Manager)) >>} ELSE {}
CDelegates(a) == CManager(a) \cup (IF a.da # "-" THEN {<< a.da, a.dr >>} ELSE {})
CRoleOf(op) == CASE op \in {"Lock", "Unlock"} -> R_Lock [] op = "Burn" -> R_Burn [] OTHER -> R_Transfer
CMay(op, a, u) == CASE op \in {"Lock", "Unlock"} -> MayLock(a, u) [] op = "Burn" -> MayBurn(a, u) [] OTHER -> MayTransfer(a, u)
CDelegated(i) == i.op \in {"Lock", "Unlock", "Burn", "Transfer"}
CPays(i) == CASE i.op = "Create" -> {CAcc(i, 6), CAcc(i, 7)} [] i.op = "Allocate" -> {CAcc(i, 2), CAcc(i, 3)} [] i.op = "Update" -> {CAcc(i, 5), CAcc(i, 6)}
              [] i.op = "Resize" -> {CAcc(i, 3), CAcc(i, 4)} [] i.op = "Remove" -> {CAcc(i, 4)} [] OTHER -> {}
CSystem(i) == CASE i.op = "Create" -> CAcc(i, 7) [] i.op \in {"Allocate", "Write"} -> CAcc(i, 3) [] i.op = "Update" -> CAcc(i, 6)
                [] i.op = "Resize" -> CAcc(i, 4) [] OTHER -> "SYS"

Cause(c, st, i) ==
    LET k == C1(i)
        u == CAcc(i, 2)
        a == st[k]
        is == CHas(st, i)
        by(ops) == i.op \in ops
    IN
    \* (data that does not decode, or too few accounts)
    CASE i.op = "Bad" -> c \in {-3, -8, -11} \/ (c = 12 /\ LockedAmong(st, i))
      [] c = 0 -> \/ by({"Close", "Create", "Allocate", "Write"}) /\ is
                  \/ by({"Create", "Allocate"}) /\ CTwice(CTypes(st, i))
                  \/ by({"Update"}) /\ IsAsset(st, CAcc(i, 3))
      [] c = 1 -> \/ by({"Write"}) /\ IsBuf(st, k) /\ (a.len < HDR \/ (CBuf(st, k) # << >> /\ a.len > EndOf(Front(a.exts)) + EXT + Last(a.exts).n))
                  \/ by({"Create", "Allocate"}) /\ IsBuf(st, k) /\ a.len < HDR
                  \/ by({"Update"}) /\ OwnerProg(st, CAcc(i, 3)) = "NIFTY" /\ IsSlot(st, CAcc(i, 3)) /\ st[CAcc(i, 3)].len < HDR + EXT
      [] c = 2 -> by({"Create", "Allocate"}) /\ CPartial(st, i)
      [] c = 3 -> \E x \in CAssets(i) : Has(x) /\ ~ IsAsset(st, x)
      [] c = 4 -> CASE by({"Verify", "Unverify"}) -> is /\ ~ HasExt(a, T_Creators)
                    [] by({"Remove"}) -> is /\ (i.t = T_None \/ ~ HasExt(a, i.t))
                    [] by({"Group", "Ungroup", "Create", "Burn"}) -> IsAsset(st, CGroup(i)) /\ ~ HasExt(st[CGroup(i)], T_Grouping)
                    [] by({"Write"}) -> IsBuf(st, k) /\ CBuf(st, k) = << >>
                    [] by({"Update"}) -> IsBuf(st, CAcc(i, 3)) /\ CBuf(st, CAcc(i, 3)) = << >>
                    [] OTHER -> FALSE
      [] c = 6 -> by({"Burn"}) /\ is /\ ~ MayBurn(a, u)
      [] c = 7 -> by({"Transfer"}) /\ is /\ ~ MayTransfer(a, u)
      [] c = 8 -> CDelegated(i) /\ is /\ ~ CMay(i.op, a, u) /\ CDelegates(a) = {}
      [] c = 9 -> CDelegated(i) /\ is /\ ~ CMay(i.op, a, u) /\ \E d \in CDelegates(a) : d[1] = u /\ (d[2] & CRoleOf(i.op)) = 0
      [] c = 10 -> CDelegated(i) /\ is /\ ~ CMay(i.op, a, u) /\ \E d \in CDelegates(a) : d[1] # u
      [] c = 11 -> by({"Approve"}) /\ is /\ a.owner # u
      [] c = 12 -> by(Guarded) /\ LockedAmong(st, i)
      [] c = 13 -> CASE by({"Remove", "Resize", "Handover", "Update"}) -> is /\ a.auth # u
                     [] by({"Revoke"}) -> is /\ a.owner # u /\ (a.da = "-" \/ a.da # u)
                     [] by({"Group"}) -> CNotGroupAuth(st, i) \/ (is /\ IsAsset(st, u) /\ a.auth # st[u].auth)
                     [] by({"Ungroup"}) -> CNotGroupAuth(st, i)
                     [] by({"Create"}) -> CNotGroupAuth(st, i) \/ (IsAsset(st, CAcc(i, 4)) /\ u # st[CAcc(i, 4)].auth)
                     [] OTHER -> FALSE
      [] c = 14 -> by({"Remove", "Resize", "Handover", "Update"}) /\ is /\ ~ a.mut
      [] c = 15 -> by({"Transfer"}) /\ is /\ a.std = 2
      [] c = 16 -> CASE by({"Remove"}) -> i.t \in {T_Manager, T_Proxy}
                     [] by({"Group"}) -> IsAsset(st, u) /\ HasExt(st[u], T_Grouping) /\ ~ GRoom(ExtData(st[u], T_Grouping))
                     [] by({"Allocate"}) -> i.e.t = T_None
                     [] by({"Create"}) -> CPartial(st, i) \/ CWrong(st, i)
                                          \/ (IsAsset(st, CAcc(i, 4)) /\ HasExt(st[CAcc(i, 4)], T_Grouping) /\ ~ GRoom(ExtData(st[CAcc(i, 4)], T_Grouping)))
                     [] by({"Write"}) -> CBuf(st, k) # << >> /\ ~ OnCreate(Last(CBuf(st, k)).t, CWritten(st, i), "-").ok
                     [] by({"Update"}) -> CBadUpdate(st, i)
                     [] OTHER -> FALSE
      [] c = 17 -> by({"Transfer"}) /\ is /\ a.group # "-" /\ (CAcc(i, 4) # a.group \/ ~ IsAsset(st, CAcc(i, 4)))
      [] c = 18 -> by({"Transfer"}) /\ is /\ (~ RoyaltyPass(st, i, a) \/ (a.group # "-" /\ IsAsset(st, a.group) /\ ~ RoyaltyPass(st, i, st[a.group])))
      [] c = 19 -> (by({"Burn"}) \/ (by({"Remove"}) /\ i.t = T_Grouping)) /\ CSize(st, k, FALSE)
      [] c = 20 -> by({"Group"}) /\ is /\ a.group # "-"
      [] c = 21 -> CASE by({"Create", "Allocate"}) -> \E j \in 1..Len(CGiven(i)) : Len(CDataOf(CGiven(i)[j])) > CGiven(i)[j].n
                     [] by({"Update"}) -> i.he /\ Len(CDataOf(i.e)) > i.e.n
                     [] by({"Write"}) -> CBuf(st, k) # << >> /\ Len(CWritten(st, i)) > Last(CBuf(st, k)).n
                     [] OTHER -> FALSE
      [] c \in {5, -1} \/ c > 21 -> FALSE
      \* the runtime's codes
      [] c = -2 -> CASE by({"Verify", "Unverify"}) -> is /\ HasExt(a, T_Creators) /\ \A j \in 1..NCreators(ExtData(a, T_Creators)) : CrKey(ExtData(a, T_Creators), j) # KB(u)
                     [] by({"Burn"}) -> (is /\ a.group # "-" /\ CAcc(i, 4) # a.group) \/ CElse(CAcc(i, 3), u) = k
                     [] by({"Ungroup"}) -> is /\ a.group # u
                     [] by({"Close"}) -> u = k
                     [] OTHER -> FALSE
      [] c = -3 -> CASE by({"Update"}) -> i.he /\ (Has(CAcc(i, 3)) \/ i.e.t > 11)
                     [] by({"Create", "Allocate"}) -> \E j \in 1..Len(CGiven(i)) : CGiven(i)[j].t > 11
                     [] by({"Remove"}) -> i.t > 11
                     [] OTHER -> FALSE
      [] c = -4 -> by({"Burn", "Ungroup"}) /\ CSize(st, CGroup(i), TRUE)
      [] c = -5 -> by({"Create", "Allocate", "Write", "Update", "Resize"})
      [] c = -7 -> CSystem(i) # "SYS"
      [] c = -8 -> \E x \in CSigners(st, i) : Has(x) /\ ~ Sg(i, x)
      [] c = -11 -> \/ \E x \in CPays(i) : ~ Has(x)
                    \/ by({"Transfer", "Burn"}) /\ is /\ a.group # "-" /\ ~ Has(CAcc(i, 4))
      [] c = -14 -> by({"Create"}) /\ \E j \in 1..Len(CTypes(st, i)) : CTypes(st, i)[j] = T_Proxy
      [] c = -12 -> CTwice(i.acc)
      [] c = -18 -> \E x \in COwned(st, i) : Has(x) /\ OwnerProg(st, x) # "NIFTY"
      [] OTHER -> TRUE

\* whatever makes the specification refuse an instruction has a code
WhyCodes == [sig |-> {-8}, proxied |-> {-8}, locked |-> {12}, init |-> {0}, dup |-> {0}, owner |-> {-18, -12, 0, 1, 3}, auth |-> {6, 7, 8, 9, 10, 11, 13},
             nonempty |-> {19}, group |-> {17, -2, -4, -11, 3, 4}, grouped |-> {20}, authority |-> {13}, nogroup |-> {4}, full |-> {16}, empty |-> {-4},
             type |-> {16, -3, 4}, incomplete |-> {2, 16}, length |-> {21, 16, 1}, data |-> {16}, manager |-> {16}, proxy |-> {16}, derivation |-> {-14},
             soulbound |-> {15}, royalty |-> {18}, noext |-> {4}, nocreator |-> {-2}, immutable |-> {14}, both |-> {-3}, buffer |-> {-18, -12, 0, 1, 4, 16},
             system |-> {-7, -11}, payer |-> {-11}, decode |-> {-3}]
Explained(st, i, why) == why \in DOMAIN WhyCodes => \E c \in WhyCodes[why] : Cause(c, st, i)
Direct(i) == "via" \notin DOMAIN i /\ ~ i.cpi /\ i.op # "Fund"
=============================================================================
