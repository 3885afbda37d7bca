-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The properties as predicates over one observed transition               *)
(*    t = [pre, i, ok, post, dl]                                           *)
(* (state before, instruction, accepted?, state after, balance deltas).    *)
(*                                                                         *)
(*   Safe(p, t)    what property p forbids, stated without reference to    *)
(*                 the transition function: evaluated on every transition  *)
(*                 of the specification and on every recorded one.         *)
(*   Conf(p, t, r) agreement with r = Step(t.pre, t.i) on the part of the *)
(*                 behaviour that property p speaks about.                 *)
(***************************************************************************)
EXTENDS Bridge

A_(st, s) == st[s].k = "asset"
Both(t, s) == A_(t.pre, s) /\ A_(t.post, s)
Slots(t) == DOMAIN t.pre
Acc(t, j) == IF j <= Len(t.i.acc) THEN t.i.acc[j] ELSE "-"
Named(t, s) == \E j \in 1..Len(t.i.acc) : t.i.acc[j] = s
Is(t, op, s) == t.i.op = op /\ Acc(t, 1) = s
SgAcc(t, j) == Sg(t.i, Acc(t, j))
Types(a) == {a.exts[j].t : j \in 1..Len(a.exts)}
DataOf(a, ty) == IF HasExt(a, ty) THEN ExtData(a, ty) ELSE << >>

\* extension content with creator flags and group sizes masked
Mask(e) == IF e.t = T_Creators THEN [e EXCEPT !.d = WithFlags(e.d, LAMBDA j : 0)]
           ELSE IF e.t = T_Grouping /\ Len(e.d) >= 16 THEN [e EXCEPT !.d = SetGSize(e.d, 0)]
           ELSE e
Masked(exts) == [j \in 1..Len(exts) |-> Mask(exts[j])]

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

(* --- group membership -------------------------------------------------- *)
\* the size without the members in the state: the members beyond it
RECURSIVE Dec64By(_, _)
Dec64By(b, n) == IF n = 0 THEN b ELSE Dec64By(Dec64(b, 1), n - 1)
Members(st, g) == Cardinality({s \in DOMAIN st : A_(st, s) /\ st[s].group = g})
Beyond(st, g) == Dec64By(GSize64(ExtData(st[g], T_Grouping)), Members(st, g))
\* a group has members beyond the state only if it was loaded with them: many
Grp_(st, g) == A_(st, g) /\ HasExt(st[g], T_Grouping) /\ Len(ExtData(st[g], T_Grouping)) >= 16
Sized(st, g) == LET b == Beyond(st, g) IN
                /\ b = Zero64 \/ (b[8] < 128 /\ (b[2] + b[3] + b[4] + b[5] + b[6] + b[7] + b[8] > 0 \/ b[1] >= 100))
                /\ GWithin(ExtData(st[g], T_Grouping))
GroupCounts(st) ==
    /\ \A g \in DOMAIN st : (A_(st, g) /\ HasExt(st[g], T_Grouping)) => Grp_(st, g) /\ Sized(st, g)
    /\ \A s \in DOMAIN st : (A_(st, s) /\ st[s].group # "-") =>
          /\ st[s].group \in DOMAIN st
          /\ A_(st, st[s].group) /\ HasExt(st[st[s].group], T_Grouping)
GroupOf(st, s) == IF A_(st, s) THEN st[s].group ELSE "-"

(* --- contents ---------------------------------------------------------- *)
AssetValid(a) ==
    /\ \A j \in 1..Len(a.exts) : /\ a.exts[j].t \in 1..11
                                 /\ Complete(a.exts[j])
                                 /\ Valid(a.exts[j].t, a.exts[j].d)
    /\ \A j, l \in 1..Len(a.exts) : a.exts[j].t = a.exts[l].t => j = l
StdConsistent(k, a) ==
    /\ (a.std = 1) <=> HasExt(a, T_Manager)
    /\ (a.std = 3) <=> HasExt(a, T_Proxy)
    /\ a.std = 3 => /\ k \in DOMAIN ProxyOf
                    /\ SubSeq(ExtData(a, T_Proxy), 1, 65) = SubSeq(ProxyData(k, "SYS"), 1, 65)
\* keys (bytes) of creators flagged as verified
VerifiedIn(a) == LET d == DataOf(a, T_Creators) IN
                 {CrKey(d, j) : j \in {l \in 1..NCreators(d) : CrVer(d, l) # 0}}
ListedIn(a) == LET d == DataOf(a, T_Creators) IN {CrKey(d, j) : j \in 1..NCreators(d)}
SignedKey(t, kb) == \E j \in 1..Len(t.i.sg) : KB(t.i.sg[j]) = kb
NoXl(r) == [f \in DOMAIN r \ {"xl", "lam"} |-> r[f]]
LamOf(r) == IF r.k = "odd" THEN r.lam ELSE Lam(r)

(* --- what the properties forbid ---------------------------------------- *)
S01(t) == \A s \in Slots(t) : Both(t, s) /\ t.post[s].owner # t.pre[s].owner =>
             /\ Is(t, "Transfer", s)
             /\ SgAcc(t, 2)
             /\ MayTransfer(t.pre[s], Acc(t, 2))
             /\ t.post[s].owner = Acc(t, 3)

S02(t) == \A s \in Slots(t) : Both(t, s) /\ t.pre[s].std = 2 =>
             t.post[s].std = 2 /\ t.post[s].owner = t.pre[s].owner

S03(t) == \A s \in Slots(t) : A_(t.pre, s) /\ t.pre[s].st = 1 =>
             /\ t.i.op \in Guarded /\ Named(t, s) => ~ t.ok
             /\ A_(t.post, s)
             /\ t.post[s].owner = t.pre[s].owner
             /\ t.post[s].da = t.pre[s].da
             /\ t.post[s].dr = t.pre[s].dr

S04(t) == \A s \in Slots(t) : Both(t, s) /\ t.post[s].st # t.pre[s].st =>
             /\ t.i.op = (IF t.post[s].st = 1 THEN "Lock" ELSE "Unlock")
             /\ Acc(t, 1) = s
             /\ SgAcc(t, 2)
             /\ MayLock(t.pre[s], Acc(t, 2))

S05(t) == \A s \in Slots(t) : Both(t, s) =>
             LET a == t.pre[s]
                 b == t.post[s]
             IN /\ (a.da # b.da \/ a.dr # b.dr) =>
                     \/ /\ Is(t, "Approve", s)
                        /\ Acc(t, 2) = a.owner /\ SgAcc(t, 2)
                        /\ b.da = IF Acc(t, 3) = "SYS" THEN "-" ELSE Acc(t, 3)
                     \/ /\ Is(t, "Revoke", s)
                        /\ SgAcc(t, 2) /\ (Acc(t, 2) = a.owner \/ Acc(t, 2) = a.da)
                        /\ \/ b.da = a.da /\ (b.dr & a.dr) = b.dr
                           \/ b.da = "-" /\ b.dr = 0
                     \/ Is(t, "Transfer", s) /\ b.da = "-" /\ b.dr = 0
                /\ a.owner # b.owner => b.da = "-" /\ b.dr = 0

S06(t) == GroupCounts(t.pre) =>
          /\ GroupCounts(t.post)
          \* the members beyond the state are still there
          /\ \A g \in Slots(t) : Grp_(t.pre, g) =>
                IF Grp_(t.post, g) THEN Beyond(t.post, g) = Beyond(t.pre, g)
                ELSE Beyond(t.pre, g) = Zero64
          /\ \A g \in Slots(t) : Grp_(t.post, g) /\ ~ Grp_(t.pre, g) => Beyond(t.post, g) = Zero64

S07(t) == \A s \in Slots(t) : A_(t.post, s) =>
             LET g == GroupOf(t.pre, s)
                 h == t.post[s].group
             IN g # h =>
                \/ /\ g = "-"
                   /\ \/ Is(t, "Group", s) /\ h = Acc(t, 2)
                      \/ Is(t, "Create", s) /\ h = Acc(t, 4)
                   /\ h \in Slots(t) /\ h # s /\ A_(t.pre, h) /\ HasExt(t.pre[h], T_Grouping)
                   /\ t.post[s].auth = t.pre[h].auth
                   /\ LET u == IF t.i.op = "Group" THEN Acc(t, 3)
                               ELSE IF Has(Acc(t, 5)) THEN Acc(t, 5) ELSE Acc(t, 2)
                          d == GDelegate(ExtData(t.pre[h], T_Grouping))
                      IN Sg(t.i, u) /\ (u = t.pre[h].auth \/ (d # "SYS" /\ u = d))
                \/ /\ h = "-"
                   /\ Is(t, "Ungroup", s) /\ Acc(t, 2) = g
                   /\ g \in Slots(t) /\ A_(t.pre, g) /\ HasExt(t.pre[g], T_Grouping)
                   /\ LET d == GDelegate(ExtData(t.pre[g], T_Grouping))
                          u == Acc(t, 3)
                      IN Sg(t.i, u) /\ (u = t.pre[g].auth \/ (d # "SYS" /\ u = d))

Meta(a) == << a.name, a.mut, a.len, Masked(a.exts) >>

S08(t) == \A s \in Slots(t) : A_(t.pre, s) /\ ~ t.pre[s].mut =>
             /\ t.post[s].k \in {"asset", "none"}
             /\ A_(t.post, s) => /\ Meta(t.post[s]) = Meta(t.pre[s])
                                 /\ t.post[s].auth = t.pre[s].auth

S09(t) == \A s \in Slots(t) : A_(t.pre, s) =>
             /\ t.post[s].k \in {"asset", "none"}
             /\ A_(t.post, s) =>
                /\ Meta(t.post[s]) # Meta(t.pre[s]) =>
                      /\ t.i.op \in {"Update", "Remove", "Resize"} /\ Acc(t, 1) = s
                      /\ Acc(t, 2) = t.pre[s].auth /\ SgAcc(t, 2)
                /\ t.post[s].auth # t.pre[s].auth =>
                      /\ Is(t, "Handover", s)
                      /\ Acc(t, 2) = t.pre[s].auth /\ SgAcc(t, 2)
                      /\ Acc(t, 3) = t.post[s].auth /\ SgAcc(t, 3)

S10(t) == \A s \in Slots(t) : A_(t.post, s) =>
             /\ \A kb \in VerifiedIn(t.post[s]) :
                   SignedKey(t, kb) \/ (A_(t.pre, s) /\ kb \in VerifiedIn(t.pre[s]))
             /\ A_(t.pre, s) => \A kb \in VerifiedIn(t.pre[s]) :
                   \/ kb \in VerifiedIn(t.post[s])
                   \/ Is(t, "Unverify", s) /\ KB(Acc(t, 2)) = kb /\ SgAcc(t, 2)
                   \/ Is(t, "Remove", s) /\ ~ HasExt(t.post[s], T_Creators)

S11(t) == \A s \in Slots(t) :
             /\ t.post[s].k # "odd"
             /\ A_(t.post, s) /\ (A_(t.pre, s) => AssetValid(t.pre[s])) => AssetValid(t.post[s])

\* which extensions an instruction may touch
Touched(t, s) ==
    CASE Is(t, "Update", s) /\ t.i.he -> {t.i.e.t}
      [] Is(t, "Update", s) /\ Has(Acc(t, 3)) /\ Acc(t, 3) \in Slots(t)
            /\ t.pre[Acc(t, 3)].k = "buf" /\ t.pre[Acc(t, 3)].exts # << >>
            -> {t.pre[Acc(t, 3)].exts[1].t}
      [] Is(t, "Remove", s) -> {t.i.t}
      [] OTHER -> {}
Others(exts, T) == SelectSeq(exts, LAMBDA e : e.t \notin T)
S12(t) == \A s \in Slots(t) :
             /\ t.post[s].k # "odd"
             /\ Both(t, s) => /\ Others(Masked(t.post[s].exts), Touched(t, s))
                                 = Others(Masked(t.pre[s].exts), Touched(t, s))
                              /\ t.post[s].len >= EndOf(t.post[s].exts)
                              /\ t.post[s].std = t.pre[s].std

IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
S13(t) == \A s \in Slots(t) :
             /\ A_(t.post, s) => \A j \in 1..Len(t.post[s].exts) : Complete(t.post[s].exts[j])
             /\ t.post[s].k = "buf" =>
                  \A j \in 1..Len(t.post[s].exts) :
                     LET e == t.post[s].exts[j] IN
                     /\ Len(e.d) <= e.n
                     /\ j < Len(t.post[s].exts) => Complete(e)
             /\ t.pre[s].k = "buf" /\ t.post[s].k \in {"buf", "asset"} =>
                  LET a == t.pre[s].exts
                      b == t.post[s].exts
                  IN /\ Len(a) <= Len(b)
                     /\ \A j \in 1..Len(a) :
                          /\ a[j].t = b[j].t /\ a[j].n = b[j].n
                          /\ \/ a[j].d = b[j].d
                             \/ Mask(a[j]).d = Mask(b[j]).d
                             \/ /\ Is(t, "Write", s) /\ j = Len(a)
                                /\ \/ t.i.ow
                                   \/ IsPre(a[j].d, b[j].d)
                                   \/ a[j].t = T_Creators /\ Complete(b[j])

S14(t) == \A s \in Slots(t) :
             /\ ~ A_(t.pre, s) /\ A_(t.post, s) =>
                  /\ Is(t, "Create", s) /\ Sg(t.i, s)
                  /\ t.post[s].owner = Acc(t, 3) /\ t.post[s].auth = Acc(t, 2)
                  /\ t.post[s].std = t.i.std /\ t.post[s].mut = t.i.mut
                  /\ t.post[s].name = NameOf(t.i.name) /\ t.post[s].st = 0
                  /\ t.post[s].da = "-" /\ t.post[s].dr = 0
             /\ A_(t.pre, s) /\ ~ A_(t.post, s) =>
                  /\ Is(t, "Burn", s) /\ t.post[s].k = "none"
                  /\ SgAcc(t, 2) /\ MayBurn(t.pre[s], Acc(t, 2))
             /\ Both(t, s) => t.post[s].std = t.pre[s].std
             /\ t.pre[s].k = "buf" /\ t.post[s].k \notin {"buf", "asset"} =>
                  Is(t, "Close", s) /\ Sg(t.i, s) /\ t.post[s].k = "none"
             /\ t.i.op = "Create" /\ t.ok /\ Acc(t, 1) = s => ~ A_(t.pre, s)

S15(t) == /\ \A s \in Slots(t) : t.post[s].k \in {"asset", "buf"} /\ (t.pre[s].k = "none" \/ t.pre[s].xl >= 0)
                                   => t.post[s].xl >= 0
          /\ SumOver([s \in Slots(t) |-> LamOf(t.post[s]) - LamOf(t.pre[s])], Slots(t))
               + SumOver(t.dl, Users) = 0
          /\ \A u \in Users : t.dl[u] < 0 => Sg(t.i, u) \/ t.i.op = "Fund"

S16(t) == t.i.op = "Transfer" /\ t.ok /\ IsAsset(t.pre, Acc(t, 1)) =>
             LET a == t.pre[Acc(t, 1)] IN
             /\ RoyaltyPass(t.pre, t.i, a)
             /\ t.post[Acc(t, 1)].owner # a.owner /\ ~ HasExt(a, T_Royalties) /\ a.group # "-" =>
                  /\ Acc(t, 4) = a.group
                  /\ RoyaltyPass(t.pre, t.i, t.pre[a.group])

S18(t) == /\ \A s \in Slots(t) : A_(t.post, s) /\ (A_(t.pre, s) => StdConsistent(s, t.pre[s]))
                                   => StdConsistent(s, t.post[s])
          /\ IsAsset(t.pre, Acc(t, 1)) /\ t.pre[Acc(t, 1)].std = 3 /\ t.ok /\ t.i.op # "Fund"
               => Sg(t.i, Acc(t, 1))

S23(t) == /\ ~ t.ok => t.post = t.pre /\ t.dl = Zero
          /\ t.i.op = "Bad" => ~ t.ok
          /\ \A s \in Slots(t) :
                LET a == t.pre[s]
                    b == t.post[s]
                IN /\ ~ Named(t, s) => a = b
                   /\ Acc(t, 1) # s =>
                        \/ NoXl(a) = NoXl(b)
                        \* a group counts, a staging buffer is normalised in place
                        \/ A_(t.pre, s) /\ A_(t.post, s)
                             /\ t.i.op \in {"Group", "Ungroup", "Burn", "Create"}
                             /\ NoXl([a EXCEPT !.exts = Masked(@)]) = NoXl([b EXCEPT !.exts = Masked(@)])
                        \/ t.i.op = "Update" /\ Acc(t, 3) = s /\ a.k = "buf" /\ b.k = "buf"

(* --- the proxy program --------------------------------------------------- *)
Via(t) == "via" \in DOMAIN t.i
Proxied(r) == r.k = "asset" /\ r.std = 3
S21(t) ==
    /\ S01(t) /\ S04(t) /\ S05(t)
    /\ \A s \in Slots(t) :
         LET a == t.pre[s]
             b == t.post[s]
         IN /\ ~ Proxied(a) /\ Proxied(b) =>
                 /\ Via(t) /\ t.i.op = "PCreate" /\ Acc(t, 1) = s /\ a.k = "none"
                 /\ ProxyOf[s].seed = Acc(t, 2) /\ SgAcc(t, 2) /\ SgAcc(t, 4)
                 /\ b.owner = Acc(t, 3) /\ b.auth = s
                 /\ ProxyAuth(DataOf(b, T_Proxy)) = Acc(t, 4)
                 /\ b.name = NameOf(t.i.name) /\ Counter(b) = 0
            /\ Proxied(a) /\ b # a =>
                 \* lamports may come from anywhere
                 \/ NoXl(a) = NoXl(b)
                 \/ Via(t) /\ (Acc(t, 1) = s \/ (t.i.op \in {"Group", "Ungroup", "Burn"} /\ a.owner = b.owner))
            /\ Proxied(a) /\ b.k # "asset" =>
                 /\ t.i.op = "Burn" /\ b.k = "none" /\ SgAcc(t, 2) /\ MayBurn(a, Acc(t, 2))
            /\ Proxied(a) /\ b.k = "asset" =>
                 /\ b.std = 3 /\ b.auth = a.auth
                 /\ DataOf(a, T_Proxy) = DataOf(b, T_Proxy)
                 /\ (a.name # b.name \/ a.mut # b.mut) =>
                       t.i.op = "Update" /\ SgAcc(t, 2) /\ Acc(t, 2) = ProxyAuth(DataOf(a, T_Proxy))
                 /\ a.exts # b.exts => t.i.op = "Transfer"
                 /\ t.i.op = "Transfer" /\ t.ok /\ Acc(t, 1) = s => Counter(b) = Counter(a) + 1 /\ b.owner = Acc(t, 3)
                 /\ a.group # b.group => \E j \in 1..Len(t.i.sg) : Sg(t.i, Acc(t, 3))

(* --- the bridge ----------------------------------------------------------- *)
HolderOf(st, m) == IF st[m].at \in DOMAIN TokenAcct THEN TokenAcct[st[m].at].holder ELSE "?"
\* the vault of mint m holds the side that is not in circulation
Backed(st, m) ==
    LET v == MintOf[m].vault
        a == MintOf[m].asset
    IN st[v].k = "vault" =>
          /\ st[v].mint = m
          /\ st[v].st = 0 => A_(st, a) /\ st[a].owner = v
          /\ st[v].st = 1 => HolderOf(st, m) = v
BridgeMints(t) == {m \in Mints : m \in Slots(t)}
VaultSt(st, m) == IF st[MintOf[m].vault].k = "vault" THEN st[MintOf[m].vault].st ELSE 2
S19(t) ==
    \A m \in BridgeMints(t) :
       LET v == MintOf[m].vault
           a == MintOf[m].asset
           u == Acc(t, 3)
           flips == VaultSt(t.pre, m) # 2 /\ VaultSt(t.pre, m) # VaultSt(t.post, m)
       IN IF ~ ({v, a} \subseteq Slots(t)) THEN TRUE
          ELSE
          /\ t.post[v].k # "odd" /\ t.post[m].k # "odd"
          /\ Backed(t.pre, m) => Backed(t.post, m)
          /\ flips => /\ t.i.op = "Bridge" /\ Acc(t, 1) = a /\ Acc(t, 2) = v /\ Acc(t, 5) = m /\ SgAcc(t, 3)
                      /\ VaultSt(t.post, m) = 1 - VaultSt(t.pre, m)
                      /\ IF VaultSt(t.pre, m) = 0
                         THEN /\ HolderOf(t.pre, m) = u /\ HolderOf(t.post, m) = v
                              /\ t.pre[a].owner = v /\ t.post[a].owner = u
                         ELSE /\ HolderOf(t.pre, m) = v /\ HolderOf(t.post, m) = u
                              /\ MayTransfer(t.pre[a], u) /\ t.post[a].owner = v
          /\ t.ok /\ t.i.op = "Bridge" /\ Acc(t, 5) = m => flips
          /\ ~ flips => /\ HolderOf(t.pre, m) = v => t.post[m] = t.pre[m]
                        /\ A_(t.pre, a) /\ t.pre[a].owner = v => A_(t.post, a) /\ t.post[a].owner = v
          /\ VaultSt(t.pre, m) # 2 => VaultSt(t.post, m) # 2

\* shares and addresses of the creators an asset lists
CreatorList(a) == LET d == DataOf(a, T_Creators) IN [j \in 1..NCreators(d) |-> << CrKey(d, j), CrShare(d, j) >>]
S20(t) ==
    \A m \in BridgeMints(t) :
       LET v == MintOf[m].vault
           a == MintOf[m].asset
           d == t.pre[Acc(t, 4)]
           b == t.post[a]
       IN IF ~ ({v, a} \subseteq Slots(t)) THEN TRUE
          ELSE
          /\ t.post[v].k # "odd" /\ t.post[a].k # "odd"
          /\ t.post[v] # t.pre[v] /\ t.post[v].k = "vault" /\ t.pre[v].k # "vault" => t.i.op = "BCreate"
          /\ A_(t.post, a) /\ ~ A_(t.pre, a) => t.i.op = "BCreate" /\ Acc(t, 1) = a
          /\ t.ok /\ t.i.op = "BCreate" /\ (Acc(t, 3) = m \/ Acc(t, 1) = a \/ Acc(t, 2) = v) =>
               /\ Acc(t, 1) = a /\ Acc(t, 2) = v /\ Acc(t, 3) = m
               /\ t.pre[m].own \in {"TOKEN", "TOKEN22"}
               /\ d.k = "meta" /\ d.own = "TM" /\ d.mint = m /\ d.std \in {0, 4} /\ d.ua = Acc(t, 5)
               /\ IF d.col # "-" /\ d.cv
                  THEN d.col \in Mints /\ MintOf[d.col].asset \in Slots(t) /\ A_(t.pre, MintOf[d.col].asset)
                  ELSE SgAcc(t, 5)
               /\ t.pre[v].k = "none" /\ t.pre[a].k # "asset"
               /\ t.post[v].k = "vault" /\ t.post[v].st = 0 /\ t.post[v].mint = m
               /\ A_(t.post, a) /\ b.owner = v /\ b.auth = d.ua /\ b.name = NameOf(d.name) /\ b.std = 0
               /\ DataOf(b, T_Metadata) = StrBytes(d.sym) \o << 0 >> \o StrBytes(d.uri) \o << 0 >>
               /\ CreatorList(b) = [j \in 1..Len(d.cr) |-> << KB(d.cr[j].a), d.cr[j].s >>]
               /\ HasExt(b, T_Grouping) = (t.i.col \/ d.cd)

Safe(p, t) ==
    CASE p = "P01" -> S01(t)
      [] p = "P02" -> S02(t)
      [] p = "P03" -> S03(t)
      [] p = "P04" -> S04(t)
      [] p = "P05" -> S05(t)
      [] p = "P06" -> S06(t)
      [] p = "P07" -> S07(t)
      [] p = "P08" -> S08(t)
      [] p = "P09" -> S09(t)
      [] p = "P10" -> S10(t)
      [] p = "P11" -> S11(t)
      [] p = "P12" -> S12(t)
      [] p = "P13" -> S13(t)
      [] p = "P14" -> S14(t)
      [] p = "P15" -> S15(t)
      [] p = "P16" -> S16(t)
      [] p = "P18" -> S18(t)
      [] p = "P19" -> S19(t)
      [] p = "P20" -> S20(t)
      [] p = "P21" -> S21(t)
      [] p = "P23" -> S23(t)
      \* P28 is about refusals: see Cause
      [] p = "P28" -> TRUE
      [] OTHER -> TRUE
SafetyProps == {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12",
                "P13", "P14", "P15", "P16", "P18", "P23"}

(* --- agreement with the specification ---------------------------------- *)
Dev(t, r) == t.ok # r.ok \/ t.post # r.st \/ t.dl # r.dl
\* the fields F of some asset differ from what the specification says
FieldDev(t, r, F) ==
    \E s \in Slots(t) :
       \/ A_(t.post, s) /\ A_(r.st, s) /\ \E f \in F : t.post[s][f] # r.st[s][f]
       \/ t.post[s].k = "odd" /\ "exts" \in F
KindDev(t, r) == \E s \in Slots(t) : t.post[s].k # r.st[s].k
ExtDev(t, r, T) ==
    \E s \in Slots(t) :
       \/ t.post[s].k = "odd"
       \/ /\ t.post[s].k = r.st[s].k /\ t.post[s].k \in {"asset", "buf"}
          /\ SelectSeq(t.post[s].exts, LAMBDA e : e.t \in T)
             # SelectSeq(r.st[s].exts, LAMBDA e : e.t \in T)
OkDev(t, r) == t.ok # r.ok
Op(t, S) == t.i.op \in S
IxExtTypes(t) ==
    IF t.i.op = "Create" THEN {t.i.exts[j].t : j \in 1..Len(t.i.exts)}
                              \cup (IF IsBuf(t.pre, Acc(t, 1)) THEN Types(t.pre[Acc(t, 1)]) ELSE {})
    ELSE IF t.i.op = "Allocate" THEN {t.i.e.t}
    ELSE IF t.i.op = "Update" THEN (IF t.i.he THEN {t.i.e.t} ELSE {})
                                   \cup (IF IsBuf(t.pre, Acc(t, 3)) THEN Types(t.pre[Acc(t, 3)]) ELSE {})
    ELSE IF t.i.op = "Remove" THEN {t.i.t}
    ELSE IF t.i.op = "Write" /\ IsBuf(t.pre, Acc(t, 1)) THEN Types(t.pre[Acc(t, 1)])
    ELSE {}
RoyaltiesInPlay(t) ==
    /\ IsAsset(t.pre, Acc(t, 1))
    /\ LET a == t.pre[Acc(t, 1)] IN
       \/ HasExt(a, T_Royalties)
       \/ IsAsset(t.pre, a.group) /\ HasExt(t.pre[a.group], T_Royalties)
       \/ a.group # "-"
Fields == {"st", "std", "mut", "owner", "group", "auth", "da", "dr", "name", "exts", "len"}

Conf(p, t, r) ==
    CASE p = "P01" -> ~ (Op(t, {"Transfer"}) /\ Dev(t, r)) /\ ~ FieldDev(t, r, {"owner"})
      [] p = "P02" -> ~ (Op(t, {"Transfer"}) /\ IsAsset(t.pre, Acc(t, 1)) /\ t.pre[Acc(t, 1)].std = 2
                         /\ Dev(t, r))
                      /\ ~ FieldDev(t, r, {"std"})
      [] p = "P03" -> /\ ~ (LockedAmong(t.pre, t.i) /\ OkDev(t, r))
                      /\ ~ (Op(t, {"Lock", "Unlock"}) /\ Dev(t, r))
                      /\ ~ FieldDev(t, r, {"st"})
      [] p = "P04" -> ~ (Op(t, {"Lock", "Unlock"}) /\ Dev(t, r)) /\ ~ FieldDev(t, r, {"st"})
      [] p = "P05" -> /\ ~ (Op(t, {"Approve", "Revoke"}) /\ Dev(t, r))
                      /\ ~ FieldDev(t, r, {"da", "dr"})
      [] p = "P06" -> /\ ~ (Op(t, {"Group", "Ungroup"}) /\ Dev(t, r))
                      /\ ~ (Op(t, {"Burn"}) /\ OkDev(t, r))
                      /\ ~ (Op(t, {"Create"}) /\ Has(Acc(t, 4)) /\ OkDev(t, r))
                      /\ ~ (Op(t, {"Update", "Remove", "Create"}) /\ T_Grouping \in IxExtTypes(t) /\ OkDev(t, r))
                      /\ ~ FieldDev(t, r, {"group"})
                      /\ ~ ExtDev(t, r, {T_Grouping})
      [] p = "P07" -> /\ ~ (Op(t, {"Group", "Ungroup"}) /\ Dev(t, r))
                      /\ ~ (Op(t, {"Create"}) /\ Has(Acc(t, 4)) /\ OkDev(t, r))
                      /\ ~ FieldDev(t, r, {"group"})
      [] p = "P08" -> /\ ~ (Op(t, {"Update", "Handover", "Remove", "Resize"}) /\ IsAsset(t.pre, Acc(t, 1))
                            /\ ~ t.pre[Acc(t, 1)].mut /\ Dev(t, r))
                      /\ ~ FieldDev(t, r, {"mut"})
      [] p = "P09" -> /\ ~ (Op(t, {"Update", "Remove", "Resize", "Handover"}) /\ OkDev(t, r))
                      /\ ~ FieldDev(t, r, {"name", "mut", "auth"})
      [] p = "P10" -> /\ ~ (Op(t, {"Verify", "Unverify"}) /\ Dev(t, r))
                      /\ ~ (T_Creators \in IxExtTypes(t) /\ OkDev(t, r))
                      /\ ~ ExtDev(t, r, {T_Creators})
      [] p = "P11" -> /\ ~ (Op(t, {"Create", "Allocate", "Write", "Update"}) /\ OkDev(t, r)
                            /\ (r.why \in {"ok", "data", "length", "type", "dup", "incomplete", "buffer"}))
                      /\ ~ (Op(t, {"Create", "Allocate", "Write", "Update"}) /\ ExtDev(t, r, 1..11))
      [] p = "P12" -> /\ ~ (Op(t, {"Create", "Update", "Remove", "Resize"}) /\ OkDev(t, r) /\ r.ok)
                      /\ ~ (Op(t, {"Remove", "Resize"}) /\ OkDev(t, r))
                      /\ ~ FieldDev(t, r, {"exts", "len"})
                      /\ ~ (r.ok /\ t.ok /\ Op(t, {"Create", "Update", "Remove", "Resize"}) /\ FieldDev(t, r, Fields))
      [] p = "P13" -> /\ ~ (Op(t, {"Allocate", "Write"}) /\ Dev(t, r))
                      /\ ~ (Op(t, {"Create"}) /\ Dev(t, r))
                      /\ ~ (Op(t, {"Update"}) /\ Has(Acc(t, 3)) /\ Dev(t, r))
                      /\ ~ \E s \in Slots(t) : t.post[s].k = "buf" /\ t.post[s] # r.st[s]
      [] p = "P14" -> /\ ~ (Op(t, {"Create", "Close", "Burn"}) /\ Dev(t, r))
                      /\ ~ KindDev(t, r)
                      /\ ~ (r.why = "init" /\ t.ok)
      [] p = "P15" -> /\ t.dl = r.dl \/ OkDev(t, r)
                      /\ ~ (OkDev(t, r) /\ r.why \in {"payer", "system", "funds", "size", "rent", "self", "inuse"})
                      /\ ~ (OkDev(t, r) /\ r.ok /\ Op(t, {"Resize", "Burn", "Close", "Allocate", "Write", "Create", "Remove", "Update"}))
                      /\ \A s \in Slots(t) : t.ok # r.ok \/ t.post[s].k = "odd" \/
                            (t.post[s].xl = r.st[s].xl /\ LamOf(t.post[s]) = LamOf(r.st[s]))
      [] p = "P16" -> ~ (Op(t, {"Transfer"}) /\ RoyaltiesInPlay(t) /\ Dev(t, r))
      [] p = "P18" -> /\ ~ (IsAsset(t.pre, Acc(t, 1)) /\ t.pre[Acc(t, 1)].std = 3 /\ OkDev(t, r))
                      /\ ~ (Op(t, {"Create", "Update", "Remove"})
                            /\ ({T_Manager, T_Proxy} \cap IxExtTypes(t) # {}) /\ OkDev(t, r))
                      /\ ~ (Op(t, {"Create"}) /\ t.i.std \in {1, 3} /\ OkDev(t, r))
                      /\ ~ ExtDev(t, r, {T_Manager, T_Proxy})
                      /\ ~ FieldDev(t, r, {"std"})
      [] p = "P19" -> ~ (Op(t, {"Bridge"}) /\ Dev(t, r))
      [] p = "P20" -> ~ (Op(t, {"BCreate"}) /\ Dev(t, r))
      [] p = "P21" -> ~ (Via(t) /\ Dev(t, r)) /\ ~ (Proxied(t.pre[Acc(t, 1)]) /\ Dev(t, r))
      [] p = "P23" -> /\ ~ (r.ok /\ t.ok /\ \E s \in Slots(t) :
                              \/ t.post[s].k = "odd"
                              \/ t.pre[s] = r.st[s] /\ t.post[s] # t.pre[s]
                              \/ t.pre[s].k = "asset" /\ t.post[s].k = "asset" /\ r.st[s].k = "asset"
                                 /\ \E f \in Fields : t.pre[s][f] = r.st[s][f] /\ t.post[s][f] # t.pre[s][f])
                      /\ ~ (r.why = "decode" /\ t.ok)
      [] OTHER -> TRUE
=============================================================================
