-------------------------------- MODULE Nifty --------------------------------
(***************************************************************************)
(* The Nifty Asset program as a deterministic transition function.         *)
(*                                                                         *)
(* A state maps slot names (accounts that may hold an asset) to records:   *)
(*   none   [k, xl]                        account does not exist          *)
(*   buf    [k, exts, len, xl]             uninitialised asset (buffer)    *)
(*   asset  [k, st, std, mut, owner, group, auth, da, dr, name, exts, len, *)
(*           xl]                                                           *)
(* where exts is the list of [t, n, d] (type, declared length, bytes), len *)
(* the account length and xl the lamports above the rent-exempt minimum.   *)
(* Balances of all other accounts appear as deltas.                        *)
(*                                                                         *)
(* Apply(st, i) is the outcome of instruction i: [ok, st, dl, why].        *)
(* Instructions carry acc (account names, "-" for an absent optional one), *)
(* sg (names that signed), cpi (invoked by another program) and arguments. *)
(***************************************************************************)
EXTENDS Codec, FiniteSets, Bitwise, SequencesExt, TLC

HDR == 168
EXT == 16
MaxGrow == 10240
Rent(n) == (n + 128) * 6960
NONE == [k |-> "none", xl |-> 0]

(* --- accounts ---------------------------------------------------------- *)
Zero == [u \in Users |-> 0]
Sg(i, k) == \E j \in 1..Len(i.sg) : i.sg[j] = k
Has(k) == k # "-"
IsSlot(st, k) == k \in DOMAIN st
IsAsset(st, k) == IsSlot(st, k) /\ st[k].k = "asset"
IsBuf(st, k) == IsSlot(st, k) /\ st[k].k = "buf"
IsNone(st, k) == IsSlot(st, k) /\ st[k].k = "none"
OwnerProg(st, k) ==
    IF IsSlot(st, k) THEN IF st[k].k = "none" THEN "SYS"
                          ELSE IF st[k].k \in {"asset", "buf"} THEN "NIFTY"
                          ELSE st[k].own
    ELSE IF k \in Wallets THEN "SYS"
    ELSE IF k \in DOMAIN ForeignOwner THEN ForeignOwner[k]
    ELSE "LOADER"
NoData(st, k) ==
    IF IsSlot(st, k) THEN st[k].k = "none"
    ELSE k \in Wallets \/ k \in ForeignEmpty

(* --- extension lists --------------------------------------------------- *)
RECURSIVE EndOf(_)
EndOf(exts) == IF exts = << >> THEN HDR
               ELSE EndOf(Front(exts)) + EXT + Pad8(Last(exts).n)
IdxOf(exts, t) == LET S == {j \in 1..Len(exts) : exts[j].t = t}
                  IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
HasExt(a, t) == IdxOf(a.exts, t) # 0
ExtData(a, t) == a.exts[IdxOf(a.exts, t)].d
SetExtData(a, t, d) == [a EXCEPT !.exts[IdxOf(a.exts, t)].d = d]
\* (<< 0 >> stands for the image that the proxy program draws)
Complete(e) == Len(e.d) = e.n \/ (e.t = T_Blob /\ e.n = ImgLen /\ e.d = << 0 >>)

(* --- lamports ---------------------------------------------------------- *)
Lam(r) == IF r.k = "none" THEN r.xl ELSE Rent(r.len) + r.xl
\* a world: [st, dl]; a step result: [ok, st, dl, why]
Yes(st, dl) == [ok |-> TRUE, st |-> st, dl |-> dl, why |-> "ok"]
No(why) == [ok |-> FALSE, st |-> << >>, dl |-> << >>, why |-> why]

Credit(w, k, amt) ==
    IF k \in Users THEN Yes(w.st, [w.dl EXCEPT ![k] = @ + amt])
    ELSE IF ~ IsSlot(w.st, k) THEN No("readonly")
    ELSE IF w.st[k].k = "none" /\ w.st[k].xl + amt > 0 /\ w.st[k].xl + amt < Rent(0)
         THEN No("rent")
    ELSE Yes([w.st EXCEPT ![k].xl = @ + amt], w.dl)

\* create account k with len bytes, paid by p
NewAccount(w, i, k, len, p, sys) ==
    IF ~ Has(p) THEN No("payer")
    ELSE IF ~ Sg(i, p) THEN No("sig")
    ELSE IF sys # "SYS" THEN No("system")
    ELSE IF w.st[k].xl # 0 THEN No("inuse")
    ELSE IF p \notin Wallets THEN No("funds")
    ELSE IF len > MaxGrow THEN No("size")
    ELSE Yes([w.st EXCEPT ![k] = [k |-> "buf", exts |-> << >>, len |-> len, xl |-> 0]],
             [w.dl EXCEPT ![p] = @ - Rent(len)])

\* change the length of account k to size: surplus goes to p, p funds growth
Resized(w, i, k, size, p, sys) ==
    LET r == w.st[k]
        lam == Lam(r)
        sized(x) == [w.st EXCEPT ![k].len = size, ![k].xl = x]
    IN IF r.len > size THEN
          IF ~ Has(p) THEN No("payer")
          ELSE IF p = k THEN Yes(sized(lam - Rent(size)), w.dl)
          ELSE Credit([st |-> sized(0), dl |-> w.dl], p, lam - Rent(size))
       ELSE IF size - r.len > MaxGrow THEN No("size")
       ELSE IF Rent(size) > lam THEN
          IF ~ Has(p) THEN No("payer")
          ELSE IF ~ Has(sys) THEN No("system")
          ELSE IF ~ Sg(i, p) THEN No("sig")
          ELSE IF sys # "SYS" THEN No("system")
          ELSE IF p \notin Wallets THEN No("funds")
          ELSE Yes(sized(0), [w.dl EXCEPT ![p] = @ - (Rent(size) - lam)])
       ELSE Yes(sized(lam - Rent(size)), w.dl)

\* close account k in favour of p
Closed(w, k, p) ==
    IF p = k THEN No("self")
    ELSE Credit([st |-> [w.st EXCEPT ![k] = NONE], dl |-> w.dl], p, Lam(w.st[k]))

(* --- authorisation ----------------------------------------------------- *)
R_Transfer == 1   R_Lock == 2   R_Burn == 4
RoleMask(r) == IF r = 0 THEN 0 ELSE 2 ^ (r - 1)
RECURSIVE RolesOf(_)
RolesOf(rs) == IF rs = << >> THEN 0 ELSE RoleMask(Head(rs)) | RolesOf(Tail(rs))
RoleArg(i) == IF i.all THEN 7 ELSE RolesOf(i.roles)

\* k is the approved delegate, or the manager, and holds the role
ByDelegate(a, k, role) == a.da # "-" /\ a.da = k /\ (a.dr & role) # 0
ByManager(a, k, role) ==
    /\ HasExt(a, T_Manager)
    /\ MgrKey(ExtData(a, T_Manager)) = k
    /\ (MgrRoles(ExtData(a, T_Manager)) & role) # 0
MayTransfer(a, k) == a.owner = k \/ ByDelegate(a, k, R_Transfer) \/ ByManager(a, k, R_Transfer)
MayBurn(a, k) == a.owner = k \/ ByDelegate(a, k, R_Burn) \/ ByManager(a, k, R_Burn)
MayLock(a, k) == \/ ByDelegate(a, k, R_Lock)
                 \/ ByManager(a, k, R_Lock)
                 \/ a.da = "-" /\ a.owner = k

\* wallet-to-wallet transfers are exempt from royalty enforcement
Exempt(st, i) == /\ ~ i.cpi
                 /\ OwnerProg(st, i.acc[2]) = "SYS"
                 /\ OwnerProg(st, i.acc[3]) = "SYS"
RoyaltyPass(st, i, a) ==
    \/ ~ HasExt(a, T_Royalties)
    \/ Exempt(st, i)
    \/ Eval(ExtData(a, T_Royalties), 8,
            [accts |-> << i.acc[1], i.acc[2], i.acc[3] >>,
             own |-> << OwnerProg(st, i.acc[1]), OwnerProg(st, i.acc[2]), OwnerProg(st, i.acc[3]) >>,
             emp |-> << NoData(st, i.acc[1]), NoData(st, i.acc[2]), NoData(st, i.acc[3]) >>])

(* --- instructions ------------------------------------------------------ *)
W(st) == [st |-> st, dl |-> Zero]

DoClose(st, i) ==
    LET k == i.acc[1] IN
    IF ~ Sg(i, k) THEN No("sig")
    ELSE IF IsAsset(st, k) THEN No("init")
    ELSE IF ~ IsBuf(st, k) THEN No("owner")
    ELSE Closed(W(st), k, i.acc[2])

DoBurn(st, i) ==
    LET k == i.acc[1]
        u == i.acc[2]
        g == i.acc[4]
        to == IF Has(i.acc[3]) THEN i.acc[3] ELSE u
    IN IF ~ IsAsset(st, k) THEN No("owner")
       ELSE IF ~ Sg(i, u) THEN No("sig")
       ELSE IF ~ MayBurn(st[k], u) THEN No("auth")
       ELSE IF HasExt(st[k], T_Grouping) /\ ~ GNone(ExtData(st[k], T_Grouping))
            THEN No("nonempty")
       ELSE IF st[k].group # "-" THEN
            IF g # st[k].group THEN No("group")
            ELSE IF ~ IsAsset(st, g) \/ ~ HasExt(st[g], T_Grouping) THEN No("group")
            ELSE LET d == ExtData(st[g], T_Grouping) IN
                 IF GNone(d) THEN No("group")
                 ELSE Closed(W([st EXCEPT ![g] = SetExtData(@, T_Grouping, GLess(d))]), k, to)
       ELSE Closed(W(st), k, to)

\* one extension appended to the buffer in slot k
Allocated(w, i, k, p, sys, e) ==
    LET st == w.st
        exts == IF IsBuf(st, k) THEN st[k].exts ELSE << >>
        off == EndOf(exts)
        data == IF e.hd THEN e.d ELSE << >>
        full == e.n = Len(data)
        size == IF full THEN off + EXT + Pad8(e.n) ELSE off + EXT + Len(data)
        room == IF ~ IsBuf(st, k) THEN NewAccount(w, i, k, size, p, sys)
                ELSE IF size > st[k].len \/ (~ full /\ size < st[k].len)
                     THEN Resized(w, i, k, size, p, sys)
                ELSE Yes(st, w.dl)
    IN IF ~ Sg(i, k) THEN No("sig")
       ELSE IF ~ IsSlot(st, k) THEN No("owner")
       ELSE IF IsAsset(st, k) THEN No("init")
       ELSE IF e.t = T_None \/ e.t > 11 THEN No("type")
       ELSE IF IdxOf(exts, e.t) # 0 THEN No("dup")
       ELSE IF exts # << >> /\ ~ Complete(Last(exts)) THEN No("incomplete")
       ELSE IF Len(data) > e.n THEN No("length")
       ELSE IF ~ room.ok THEN room
       ELSE Yes([room.st EXCEPT ![k].exts = Append(exts, [t |-> e.t, n |-> e.n, d |-> data])],
                room.dl)

DoAllocate(st, i) == Allocated(W(st), i, i.acc[1], i.acc[2], i.acc[3], i.e)

RECURSIVE AllocateAll(_, _, _, _, _, _)
AllocateAll(w, i, k, p, sys, es) ==
    IF es = << >> THEN Yes(w.st, w.dl)
    ELSE LET r == Allocated(w, i, k, p, sys, Head(es)) IN
         IF ~ r.ok THEN r
         ELSE AllocateAll([st |-> r.st, dl |-> r.dl], i, k, p, sys, Tail(es))

\* the order in which Create takes up the extensions it is given
CreateOrder(es) == IF es = << >> THEN << >> ELSE << Head(es) >> \o Reverse(Tail(es))

RECURSIVE SpaceOf(_)
SpaceOf(es) == IF es = << >> THEN HDR ELSE SpaceOf(Tail(es)) + EXT + Pad8(Head(es).n)

\* add asset k to group g on behalf of u
Grouped(w, i, k, g, u) ==
    LET st == w.st IN
    IF ~ Sg(i, u) THEN No("sig")
    ELSE IF ~ IsAsset(st, k) \/ ~ IsAsset(st, g) \/ k = g THEN No("owner")
    ELSE IF st[k].group # "-" THEN No("grouped")
    ELSE IF st[k].auth # st[g].auth THEN No("authority")
    ELSE IF ~ HasExt(st[g], T_Grouping) THEN No("nogroup")
    ELSE LET d == ExtData(st[g], T_Grouping) IN
         IF ~ (u = st[g].auth \/ (GDelegate(d) # "SYS" /\ GDelegate(d) = u)) THEN No("auth")
         ELSE IF ~ GRoom(d) THEN No("full")
         ELSE Yes([st EXCEPT ![k].group = g,
                             ![g] = SetExtData(@, T_Grouping, GMore(d))],
                  w.dl)

DoGroup(st, i) == Grouped(W(st), i, i.acc[1], i.acc[2], i.acc[3])

DoUngroup(st, i) ==
    LET k == i.acc[1]
        g == i.acc[2]
        u == i.acc[3]
    IN IF ~ Sg(i, u) THEN No("sig")
       ELSE IF ~ IsAsset(st, k) \/ ~ IsAsset(st, g) \/ k = g THEN No("owner")
       ELSE IF st[k].group # g THEN No("group")
       ELSE IF ~ HasExt(st[g], T_Grouping) THEN No("nogroup")
       ELSE LET d == ExtData(st[g], T_Grouping) IN
            IF ~ (u = st[g].auth \/ (GDelegate(d) # "SYS" /\ GDelegate(d) = u)) THEN No("auth")
            ELSE IF GNone(d) THEN No("empty")
            ELSE Yes([st EXCEPT ![k].group = "-",
                                ![g] = SetExtData(@, T_Grouping, GLess(d))],
                     Zero)

\* names hold at most 35 bytes; trailing zeros do not count
RECURSIVE Trimmed(_)
Trimmed(s) == IF s = << >> THEN s ELSE IF Last(s) = 0 THEN Trimmed(Front(s)) ELSE s
NameOf(s) == Trimmed(SubSeq(s, 1, Lesser(35, Len(s))))

DoCreate(st, i) ==
    LET k == i.acc[1]
        auth == i.acc[2]
        owner == i.acc[3]
        g == i.acc[4]
        ga == IF Has(i.acc[5]) THEN i.acc[5] ELSE auth
        p == i.acc[6]
        sys == i.acc[7]
        es == IF i.hx THEN i.exts ELSE << >>
        base == IF IsNone(st, k) THEN NewAccount(W(st), i, k, SpaceOf(es), p, sys)
                ELSE Yes(st, Zero)
        alloc == AllocateAll([st |-> base.st, dl |-> base.dl], i, k, p, sys, CreateOrder(es))
        b == alloc.st[k]
        \* only a signing authority vouches for itself
        by == IF Sg(i, auth) THEN auth ELSE "-"
        checked == [j \in 1..Len(b.exts) |-> OnCreate(b.exts[j].t, b.exts[j].d, by)]
        a == [k |-> "asset", st |-> 0, std |-> i.std, mut |-> i.mut, owner |-> owner,
              group |-> "-", auth |-> auth, da |-> "-", dr |-> 0, name |-> NameOf(i.name),
              exts |-> [j \in 1..Len(b.exts) |-> [b.exts[j] EXCEPT !.d = checked[j].d]],
              len |-> b.len, xl |-> b.xl]
        made == [st |-> [alloc.st EXCEPT ![k] = a], dl |-> alloc.dl]
    IN IF ~ Sg(i, k) THEN No("sig")
       ELSE IF ~ IsSlot(st, k) THEN No("owner")
       ELSE IF IsAsset(st, k) THEN No("init")
       ELSE IF ~ base.ok THEN base
       ELSE IF ~ alloc.ok THEN alloc
       ELSE IF \E j \in 1..Len(b.exts) : ~ Complete(b.exts[j]) THEN No("incomplete")
       ELSE IF \E j \in 1..Len(b.exts) : ~ checked[j].ok THEN No("data")
       ELSE IF (i.std = 1) # HasExt(b, T_Manager) THEN No("manager")
       ELSE IF (i.std = 3) # HasExt(b, T_Proxy) THEN No("proxy")
       ELSE IF i.std = 3 /\ (k \notin DOMAIN ProxyOf \/
                 SubSeq(ExtData(b, T_Proxy), 1, 65) # SubSeq(ProxyData(k, "SYS"), 1, 65))
            THEN No("derivation")
       ELSE IF Has(g) THEN Grouped(made, i, k, g, ga)
       ELSE Yes(made.st, made.dl)

DoApprove(st, i) ==
    LET k == i.acc[1]
        u == i.acc[2]
        d == IF i.acc[3] = "SYS" THEN "-" ELSE i.acc[3]
        r == RoleArg(i)
    IN IF ~ IsAsset(st, k) THEN No("owner")
       ELSE IF st[k].owner # u THEN No("auth")
       ELSE IF ~ Sg(i, u) THEN No("sig")
       ELSE IF d # "-" /\ st[k].da = d THEN Yes([st EXCEPT ![k].dr = @ | r], Zero)
       ELSE Yes([st EXCEPT ![k].da = d, ![k].dr = r], Zero)

DoRevoke(st, i) ==
    LET k == i.acc[1]
        u == i.acc[2]
        left == st[k].dr & (255 - RolesOf(i.roles))
    IN IF ~ Sg(i, u) THEN No("sig")
       ELSE IF ~ IsAsset(st, k) THEN No("owner")
       ELSE IF ~ (st[k].owner = u \/ (st[k].da # "-" /\ st[k].da = u)) THEN No("auth")
       ELSE IF i.all THEN Yes([st EXCEPT ![k].da = "-", ![k].dr = 0], Zero)
       ELSE IF st[k].da = "-" THEN Yes(st, Zero)
       ELSE IF left = 0 THEN Yes([st EXCEPT ![k].da = "-", ![k].dr = 0], Zero)
       ELSE Yes([st EXCEPT ![k].dr = left], Zero)

DoLock(st, i, v) ==
    LET k == i.acc[1]
        u == i.acc[2]
    IN IF ~ Sg(i, u) THEN No("sig")
       ELSE IF ~ IsAsset(st, k) THEN No("owner")
       ELSE IF ~ MayLock(st[k], u) THEN No("auth")
       ELSE Yes([st EXCEPT ![k].st = v], Zero)

DoTransfer(st, i) ==
    LET k == i.acc[1]
        u == i.acc[2]
        to == i.acc[3]
        g == i.acc[4]
    IN IF ~ IsAsset(st, k) THEN No("owner")
       ELSE IF ~ Sg(i, u) THEN No("sig")
       ELSE IF ~ RoyaltyPass(st, i, st[k]) THEN No("royalty")
       ELSE IF st[k].std = 2 THEN No("soulbound")
       ELSE IF ~ MayTransfer(st[k], u) THEN No("auth")
       ELSE IF st[k].owner = to THEN Yes(st, Zero)
       ELSE IF st[k].group # "-" /\ ~ HasExt(st[k], T_Royalties) /\ g # st[k].group
            THEN No("group")
       ELSE IF st[k].group # "-" /\ ~ HasExt(st[k], T_Royalties)
                 /\ ~ RoyaltyPass(st, i, st[st[k].group]) THEN No("royalty")
       ELSE Yes([st EXCEPT ![k].owner = to, ![k].da = "-", ![k].dr = 0], Zero)

DoVerify(st, i, v) ==
    LET k == i.acc[1]
        u == i.acc[2]
    IN IF ~ Sg(i, u) THEN No("sig")
       ELSE IF ~ IsAsset(st, k) THEN No("owner")
       ELSE IF ~ HasExt(st[k], T_Creators) THEN No("noext")
       ELSE LET d == ExtData(st[k], T_Creators)
                M == {j \in 1..NCreators(d) : CrKey(d, j) = KB(u)}
            IN IF M = {} THEN No("nocreator")
               ELSE Yes([st EXCEPT ![k] = SetExtData(@, T_Creators,
                           WithFlags(d, LAMBDA j : IF j \in M THEN v ELSE CrVer(d, j)))], Zero)

DoHandover(st, i) ==
    LET k == i.acc[1] IN
    IF ~ Sg(i, i.acc[2]) \/ ~ Sg(i, i.acc[3]) THEN No("sig")
    ELSE IF ~ IsAsset(st, k) THEN No("owner")
    ELSE IF st[k].auth # i.acc[2] THEN No("auth")
    ELSE IF ~ st[k].mut THEN No("immutable")
    ELSE Yes([st EXCEPT ![k].auth = i.acc[3]], Zero)

DoRemove(st, i) ==
    LET k == i.acc[1] IN
    IF ~ Sg(i, i.acc[2]) THEN No("sig")
    ELSE IF ~ IsAsset(st, k) THEN No("owner")
    ELSE IF st[k].auth # i.acc[2] THEN No("auth")
    ELSE IF ~ st[k].mut THEN No("immutable")
    ELSE IF i.t = T_None \/ ~ HasExt(st[k], i.t) THEN No("noext")
    ELSE IF i.t \in {T_Manager, T_Proxy} THEN No("type")
    ELSE IF i.t = T_Grouping /\ ~ GNone(ExtData(st[k], T_Grouping)) THEN No("nonempty")
    ELSE LET j == IdxOf(st[k].exts, i.t)
             size == st[k].len - (EXT + Pad8(st[k].exts[j].n))
         IN Resized(W([st EXCEPT ![k].exts = RemoveAt(@, j)]), i, k, size, i.acc[4], "-")

DoResize(st, i) ==
    LET k == i.acc[1] IN
    IF ~ Sg(i, i.acc[2]) THEN No("sig")
    ELSE IF ~ IsAsset(st, k) THEN No("owner")
    ELSE IF st[k].auth # i.acc[2] THEN No("auth")
    ELSE IF ~ st[k].mut THEN No("immutable")
    ELSE Resized(W(st), i, k, IF i.trim THEN EndOf(st[k].exts) ELSE st[k].len + i.v,
                 i.acc[3], i.acc[4])

DoWrite(st, i) ==
    LET k == i.acc[1]
        p == i.acc[2]
        sys == i.acc[3]
        e == Last(st[k].exts)
        off == EndOf(Front(st[k].exts)) + EXT
        end == off + e.n
        d == IF i.ow THEN i.d ELSE e.d \o i.d
        done == Len(d) = e.n
        size == IF done THEN off + Pad8(e.n) ELSE off + Len(d)
        w == Resized(W(st), i, k, size, p, sys)
        r == OnCreate(e.t, d, "-")
        n == Len(st[k].exts)
    IN IF sys # "SYS" THEN No("system")
       ELSE IF ~ Sg(i, p) \/ ~ Sg(i, k) THEN No("sig")
       ELSE IF IsAsset(st, k) THEN No("init")
       ELSE IF ~ IsBuf(st, k) THEN No("owner")
       ELSE IF st[k].exts = << >> THEN No("noext")
       ELSE IF st[k].len > end THEN No("length")
       ELSE IF Len(d) > e.n THEN No("length")
       ELSE IF ~ w.ok THEN w
       ELSE IF done /\ ~ r.ok THEN No("data")
       ELSE Yes([w.st EXCEPT ![k].exts[n].d = IF done THEN r.d ELSE d], w.dl)

DoUpdate(st, i) ==
    LET k == i.acc[1]
        u == i.acc[2]
        b == i.acc[3]
        p == i.acc[5]
        sys == i.acc[6]
        a0 == [st[k] EXCEPT !.name = IF i.hn THEN NameOf(i.name) ELSE @,
                            !.mut = IF i.hm THEN i.mut ELSE @]
        e == IF Has(b) THEN Head(st[b].exts)
             ELSE [t |-> i.e.t, n |-> i.e.n, d |-> IF i.e.hd THEN i.e.d ELSE << >>]
        j == IdxOf(a0.exts, e.t)
        r == IF j # 0 THEN OnUpdate(e.t, a0.exts[j].d, e.d, u) ELSE OnCreate(e.t, e.d, u)
        ne == [t |-> e.t, n |-> e.n, d |-> r.d]
        exts == IF j # 0 THEN [a0.exts EXCEPT ![j] = ne] ELSE Append(a0.exts, ne)
        \* a change of footprint drops any spare space
        size == IF j # 0 /\ Pad8(a0.exts[j].n) = Pad8(e.n) THEN a0.len ELSE EndOf(exts)
        st1 == [st EXCEPT ![k] = [a0 EXCEPT !.exts = exts]]
        st2 == IF Has(b) THEN [st1 EXCEPT ![b].exts[1].d = r.d] ELSE st1
    IN IF ~ Sg(i, u) THEN No("sig")
       ELSE IF ~ IsAsset(st, k) THEN No("owner")
       ELSE IF st[k].auth # u THEN No("auth")
       ELSE IF ~ st[k].mut THEN No("immutable")
       ELSE IF ~ i.he /\ ~ Has(b) THEN Yes([st EXCEPT ![k] = a0], Zero)
       ELSE IF i.he /\ Has(b) THEN No("both")
       ELSE IF Has(b) /\ (b = k \/ ~ IsBuf(st, b)) THEN No("buffer")
       ELSE IF Has(b) /\ (st[b].exts = << >> \/ ~ Complete(Head(st[b].exts))) THEN No("buffer")
       ELSE IF e.t = T_None \/ e.t > 11 THEN No("type")
       ELSE IF e.n # Len(e.d) THEN No("length")
       ELSE IF j = 0 /\ e.t \in {T_Manager, T_Proxy} THEN No("type")
       ELSE IF ~ r.ok THEN No("data")
       ELSE IF j # 0 /\ size = a0.len THEN Yes(st2, Zero)
       ELSE Resized(W(st2), i, k, size, p, sys)

Guarded == {"Approve", "Burn", "Lock", "Revoke", "Transfer"}
LockedAmong(st, i) ==
    \E j \in 1..Lesser(7, Len(i.acc)) : IsAsset(st, i.acc[j]) /\ st[i.acc[j]].st = 1

Dispatch(st, i) ==
    CASE i.op = "Close" -> DoClose(st, i)
      [] i.op = "Burn" -> DoBurn(st, i)
      [] i.op = "Create" -> DoCreate(st, i)
      [] i.op = "Approve" -> DoApprove(st, i)
      [] i.op = "Allocate" -> DoAllocate(st, i)
      [] i.op = "Lock" -> DoLock(st, i, 1)
      [] i.op = "Revoke" -> DoRevoke(st, i)
      [] i.op = "Transfer" -> DoTransfer(st, i)
      [] i.op = "Unlock" -> DoLock(st, i, 0)
      [] i.op = "Unverify" -> DoVerify(st, i, 0)
      [] i.op = "Update" -> DoUpdate(st, i)
      [] i.op = "Verify" -> DoVerify(st, i, 1)
      [] i.op = "Write" -> DoWrite(st, i)
      [] i.op = "Group" -> DoGroup(st, i)
      [] i.op = "Ungroup" -> DoUngroup(st, i)
      [] i.op = "Handover" -> DoHandover(st, i)
      [] i.op = "Remove" -> DoRemove(st, i)
      [] i.op = "Resize" -> DoResize(st, i)
      \* lamports sent to an account by somebody else
      [] i.op = "Fund" -> Credit([st |-> st, dl |-> [Zero EXCEPT ![i.acc[2]] = 0 - i.v]],
                                 i.acc[1], i.v)
      \* anything that does not decode as an instruction
      [] OTHER -> No("decode")

Apply(st, i) ==
    LET r == IF IsAsset(st, i.acc[1]) /\ st[i.acc[1]].std = 3 /\ ~ Sg(i, i.acc[1])
                /\ i.op \notin {"Fund", "Bad"}
             THEN No("proxied")
             ELSE IF i.op \in Guarded /\ LockedAmong(st, i) THEN No("locked")
             ELSE Dispatch(st, i)
    IN TLCEval(IF r.ok THEN r ELSE [ok |-> FALSE, st |-> st, dl |-> Zero, why |-> r.why])
=============================================================================
