-------------------------------- MODULE Bridge --------------------------------
(***************************************************************************)
(* The bridge program: creates a bridge asset for a non-fungible token at  *)
(* addresses derived from its mint, and swaps token and asset through the  *)
(* mint's vault.  Composed from the transition function of the asset       *)
(* program and from what the bridge relies on of Token Metadata.           *)
(* Further slot records:                                                   *)
(*   mint   [k, own, std, at, xl]     at: token account holding the token  *)
(*   meta   [k, own, ua, mint, name, sym, uri, fee, hc, cr, std, col, cv,  *)
(*           cd, xl]                  the metadata account of a mint       *)
(*   vault  [k, own, st, mint, len, xl]   st 0: idle, 1: active            *)
(***************************************************************************)
EXTENDS Proxy

Mints == DOMAIN MintOf
VaultLen == 36
BridgeVault(m) == IF m \in Mints THEN MintOf[m].vault ELSE "?"
BridgeAsset(m) == IF m \in Mints THEN MintOf[m].asset ELSE "?"
Is_(st, k, kind) == IsSlot(st, k) /\ st[k].k = kind
OneOfAKind(d) == d.std \in {0, 4}
Programmable(d) == d.std = 4

(* --- creation ------------------------------------------------------------ *)
StrBytes(s) == << Len(s) >> \o s
RECURSIVE CreatorBytes(_)
CreatorBytes(cs) == IF cs = << >> THEN << >>
                    ELSE KB(Head(cs).a) \o << Head(cs).v, Head(cs).s >> \o CreatorBytes(Tail(cs))
\* what the bridge asset carries for this metadata
Mirror(d, collection) ==
    << InX(T_Metadata, StrBytes(d.sym) \o << 0 >> \o StrBytes(d.uri) \o << 0 >>) >>
    \o (IF d.hc THEN << InX(T_Creators, CreatorBytes(d.cr)) >> ELSE << >>)
    \o (IF collection \/ d.cd
        THEN << InX(T_Grouping, Grouping(0, "SYS")) >>
             \o (IF Programmable(d) THEN << InX(T_Royalties, Royalties(d.fee, CEmpty)) >> ELSE << >>)
        ELSE << >>)

\* a member of a verified collection needs the collection on the bridge, any
\* other token the update authority's signature
Authorised(st, d, i) ==
    IF d.col # "-" /\ d.cv
    THEN LET c == i.acc[6] IN Has(c) /\ c = BridgeAsset(d.col) /\ IsAsset(st, c)
    ELSE Sg(i, i.acc[5])

DoBCreate(st, i) ==
    LET a == i.acc[1]
        v == i.acc[2]
        m == i.acc[3]
        d == st[i.acc[4]]
        ua == i.acc[5]
        p == i.acc[7]
        vault == [k |-> "vault", own |-> "BRIDGE", st |-> 0, mint |-> m, len |-> VaultLen, xl |-> 0]
        nv == NewAccount(W(st), With(i, << v >>), v, VaultLen, p, i.acc[8])
        w == [st |-> [nv.st EXCEPT ![v] = vault], dl |-> nv.dl]
        al == AllocateAll(w, With(i, << a >>), a, p, i.acc[8], Mirror(d, i.col))
        cr == Apply(al.st, With([op |-> "Create", acc |-> << a, ua, v, "-", "-", p, i.acc[8] >>, sg |-> i.sg, cpi |-> TRUE,
                name |-> d.name, std |-> 0, mut |-> TRUE, hx |-> FALSE, exts |-> << >>], << a >>))
    IN IF OwnerProg(st, m) \notin {"TOKEN", "TOKEN22"} THEN No("mint")
       ELSE IF ~ Is_(st, i.acc[4], "meta") \/ OwnerProg(st, i.acc[4]) # "TM" THEN No("metadata")
       ELSE IF ~ OneOfAKind(d) THEN No("standard")
       ELSE IF d.mint # m THEN No("mint")
       ELSE IF d.ua # ua THEN No("auth")
       ELSE IF ~ Authorised(st, d, i) THEN No("sig")
       ELSE IF v # BridgeVault(m) \/ a # BridgeAsset(m) THEN No("derivation")
       ELSE IF ~ IsNone(st, v) THEN No("init")
       ELSE IF i.acc[9] # "NIFTY" THEN No("program")
       ELSE IF ~ nv.ok THEN nv
       ELSE IF ~ al.ok THEN al
       ELSE IF ~ cr.ok THEN cr
       ELSE Yes(cr.st, al.dl)

(* --- Token Metadata: the holder of a token sends it ---------------------- *)
\* acc: token, holder, destination token, receiver, mint, metadata, edition,
\*      token record, destination record, authority, payer, system, sysvar,
\*      token program, ata program, rules program, rules
DoMove(st, i) ==
    LET A(j) == i.acc[j]
        m == A(5)
        tk(k) == k \in DOMAIN TokenAcct /\ TokenAcct[k].mint = m
    IN IF ~ Sg(i, A(10)) \/ ~ Sg(i, A(11)) THEN No("sig")
       ELSE IF ~ Is_(st, m, "mint") \/ st[m].own \notin {"TOKEN", "TOKEN22"} \/ A(14) # st[m].own THEN No("mint")
       ELSE IF A(12) # "SYS" \/ A(13) # "SIV" \/ A(15) # "ATA" THEN No("program")
       ELSE IF A(6) # MintOf[m].meta \/ st[A(6)].own # "TM" \/ st[A(6)].mint # m THEN No("metadata")
       ELSE IF ~ tk(A(1)) \/ ~ tk(A(3)) \/ A(1) = A(3) THEN No("token")
       ELSE IF TokenAcct[A(1)].holder # A(2) \/ TokenAcct[A(3)].holder # A(4) \/ A(10) # A(2) THEN No("holder")
       ELSE IF st[m].std = 4 /\ (A(8) # TokenAcct[A(1)].rec \/ A(9) # TokenAcct[A(3)].rec) THEN No("record")
       ELSE IF st[m].at # A(1) THEN No("funds")
       ELSE Yes([st EXCEPT ![m].at = A(3)], Zero)

(* --- the swap -------------------------------------------------------------- *)
DoBridge(st, i) ==
    LET A(j) == i.acc[j]
        a == A(1)
        v == A(2)
        u == A(3)
        m == A(5)
        idle == st[v].st = 0
        from == IF idle THEN u ELSE v
        to == IF idle THEN v ELSE u
        seeds == With(i, << v >>)
        mv == DoMove(st, [seeds EXCEPT !.acc =
                << IF idle THEN A(4) ELSE A(9), from, IF idle THEN A(9) ELSE A(4), to, m, A(6), A(7),
                   IF idle THEN A(8) ELSE A(10), IF idle THEN A(10) ELSE A(8), from, A(11), A(14), A(15), A(16), A(17), A(18), A(19) >>])
        tr == Apply(mv.st, [op |-> "Transfer", acc |-> << a, to, from, A(20) >>, sg |-> IF idle THEN seeds.sg ELSE i.sg, cpi |-> TRUE])
    IN IF ~ Sg(i, u) THEN No("sig")
       ELSE IF OwnerProg(st, m) \notin {"TOKEN", "TOKEN22"} THEN No("mint")
       ELSE IF OwnerProg(st, a) # "NIFTY" THEN No("asset")
       ELSE IF ~ Is_(st, v, "vault") THEN No("vault")
       ELSE IF v # BridgeVault(m) \/ a # BridgeAsset(m) \/ st[v].mint # m THEN No("derivation")
       ELSE IF ~ Is_(st, A(6), "meta") \/ ~ OneOfAKind(st[A(6)]) \/ st[A(6)].mint # m THEN No("metadata")
       ELSE IF A(12) # "NIFTY" \/ A(13) # "TM" THEN No("program")
       ELSE IF ~ mv.ok THEN mv
       ELSE IF ~ tr.ok THEN tr
       ELSE Yes([tr.st EXCEPT ![v].st = 1 - st[v].st], Zero)

BridgeStep(st, i) ==
    LET r == CASE i.op = "BCreate" -> DoBCreate(st, i)
               [] i.op = "Bridge" -> DoBridge(st, i)
               [] i.op = "Move" -> DoMove(st, i)
               [] OTHER -> No("decode")
    IN TLCEval(IF r.ok THEN r ELSE [ok |-> FALSE, st |-> st, dl |-> Zero, why |-> r.why])

\* one transaction, whichever program it addresses
Step(st, i) == IF "via" \notin DOMAIN i THEN Apply(st, i)
               ELSE IF i.via = "PROXY" THEN ProxyStep(st, i)
               ELSE BridgeStep(st, i)
=============================================================================
