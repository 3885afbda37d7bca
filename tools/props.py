import json
A="programs/asset/program/src/processor/"
T="programs/asset/types/src/"
rows=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    r=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: r["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: r["anchors"]["observe_at"]=obs
    rows.append(r)
HI=["histories","inputs"]
NOPROC="The 24 stable tests cover only the types crate (extension builders/codecs) and one id test; no instruction processor runs under them, and a sample of calls could not cover every signer/role/state combination."
p("P01","Only the owner or an empowered delegate/manager can move an asset",
 "An asset changes owner only through a transfer signed by its current owner, by its approved delegate while it holds the transfer role, or by the manager of a managed asset whose manager extension grants the transfer role; a signature by anyone else, or no signature, leaves the owner unchanged. Conversely, a transfer signed by one of these parties that violates no other rule succeeds and makes the recipient the owner.",
 HI,"every asset state reachable through the program's instructions, every choice of signer, signature flag, recipient, role set and manager",
 NOPROC,[A+"transfer.rs","programs/asset/program/src/utils.rs"],[("owner / delegate / manager check","transfer.rs process_transfer, utils.rs assert_delegate")],
 [("owner","current holder","Asset.owner"),("delegate","approved address and roles","Asset.delegate")],["asset account after Transfer"])
p("P02","Soulbound assets never change owner",
 "Once an asset is created with the soulbound standard its owner never changes for the life of the account, whoever signs and whatever other instructions are interleaved.",
 HI,"every history after creation; every signer incl. owner, delegate, manager, authority",NOPROC,[A+"transfer.rs",A+"create.rs"],[("standard check","transfer.rs")],
 [("standard","asset standard","Asset.standard")],["asset account after every instruction"])
p("P03","A locked asset is frozen until it is unlocked",
 "While an asset is locked, its owner and delegate do not change and it can be neither burned, transferred, approved, revoked nor locked again: each of those instructions naming the locked asset fails and changes nothing. Locking does not restrict instructions outside this set.",
 HI,"every history containing a lock, every guarded instruction, every position in which the locked asset is passed",NOPROC,
 [A+"mod.rs","programs/asset/program/src/utils.rs","programs/asset/interface/src/interface.rs"],[("guard dispatched before the processor","processor/mod.rs, interface accounts guards")],
 [("state","locked flag","Asset.state")],["asset account, instruction result"])
p("P04","Only the right party can lock or unlock an asset",
 "An asset becomes locked or unlocked only through an instruction signed by the approved delegate holding the lock role, by a manager holding the lock role, or by the owner while no delegate is approved. When one of these signs, lock and unlock succeed and set exactly the lock state; in particular the owner cannot undo a lock while a delegate is approved.",
 HI,"every delegate/manager/owner configuration, both instructions, every signer",NOPROC,[A+"lock.rs",A+"unlock.rs","programs/asset/program/src/utils.rs"],[("assert_delegate with owner fallback","lock.rs, unlock.rs")],
 [("state","locked flag","Asset.state")],["asset account after Lock/Unlock"])
p("P05","A delegate exists only by the owner's approval and ends with the ownership",
 "An asset's delegate address and roles are set only by an approval signed by the owner: approving a new address replaces the delegate and its roles, approving the same address adds roles. They are reduced only by a revoke signed by the owner or the delegate itself, which takes away exactly the named roles and clears the delegate once none is left; a change of owner clears them, and no other instruction touches them.",
 HI,"every sequence of approve/revoke/transfer/other instructions, every role subset, every signer",NOPROC,[A+"approve.rs",A+"revoke.rs",A+"transfer.rs","programs/asset/types/src/state/delegate.rs"],[("role bit arithmetic","Delegate::enable/disable"),("delegate reset on transfer","transfer.rs")],
 [("delegate","address and role bits","Asset.delegate")],["asset account after every instruction"])
p("P06","A group's size equals the number of its members and respects its maximum",
 "In every reachable state the size recorded by a group asset equals the number of live assets that name it as their group, and never exceeds the maximum size when one is set. A group that still has members can be neither burned nor have its grouping data removed, and an update of the grouping data cannot alter the recorded size or set a maximum below it.",
 HI,"every interleaving of create-with-group, group, ungroup, burn, update, remove over several assets and groups",NOPROC,
 [A+"group.rs",A+"ungroup.rs",A+"burn.rs",A+"create.rs",A+"update.rs",A+"remove.rs","programs/asset/types/src/extensions/grouping.rs"],[("size increment/decrement","group.rs, ungroup.rs, burn.rs"),("size/max validation","grouping.rs on_create/on_update")],
 [("size,max_size","group membership counters","Grouping extension"),("group","membership pointer","Asset.group")],["group and member accounts after every instruction"])
p("P07","Group membership changes only with the group's consent",
 "An asset enters a group only if it belongs to no group, shares the group's update authority, and the group's update authority or its recorded group delegate signed; it leaves a group only if it is a member of that very group and one of those two signed, or when it is burned. Anything else leaves the membership of every asset unchanged, and a consented change that breaks no other rule succeeds.",
 HI,"every pair of assets, every signer, create-time and later grouping",NOPROC,[A+"group.rs",A+"ungroup.rs",A+"create.rs"],[("authority / delegate / same-authority check","group.rs, ungroup.rs")],
 [("group","membership pointer","Asset.group"),("delegate","group delegate","Grouping extension")],["member account after Group/Ungroup/Create"])
p("P08","Immutable assets keep their metadata forever",
 "Once an asset is not mutable, its name, mutability flag, update authority, account size and the set, lengths and contents of its extensions never change again, except for the verification flag of a creator and the member count of a group. In particular an immutable asset can never become mutable again.",
 HI,"every history after the asset is created immutable or made immutable",NOPROC,[A+"update.rs",A+"handover.rs",A+"remove.rs",A+"resize.rs"],[("is-mutable require","update/handover/remove/resize")],
 [("mutable","mutability flag","Asset.mutable")],["asset account after every instruction"])
p("P09","Only the update authority changes metadata; handover needs both signatures",
 "An asset's name, mutability flag and extensions, and the account's size, change only when its current update authority signed the instruction (creator verification by the creator itself and group membership counts aside). The update authority itself changes only when both the current and the new authority signed, and becomes exactly the new one.",
 HI,"every signer/authority combination for update, remove, resize, handover",NOPROC,[A+"update.rs",A+"handover.rs",A+"remove.rs",A+"resize.rs"],[("signer and authority comparison","each processor")],
 [("authority","update authority","Asset.authority")],["asset account after every instruction"])
p("P10","A creator is marked verified only by that creator",
 "A creator entry of an asset is marked verified only if that creator signed: through verify, or as the signing authority of the create or update that lists it. Verify and unverify change exactly the signing creator's own entry, a verified creator cannot be dropped by an update, and an update never changes the flag of an address that was already listed.",
 HI,"every create/update/verify/unverify/write history, duplicated and forged verified flags in submitted data",NOPROC,
 [A+"verify.rs",A+"unverify.rs",A+"create.rs",A+"update.rs","programs/asset/types/src/extensions/creators.rs"],[("flag sanitising","creators.rs on_create/on_update"),("self-signed flip","verify.rs, unverify.rs")],
 [("verified","creator flags","Creators extension")],["asset account after every instruction"])
p("P11","Every extension an asset carries is well formed and within its limits",
 "Whatever the path (create, allocate and write, update inline or from a buffer), every extension of an initialized asset parses as an instance of its type, has exactly its declared length, and satisfies the type's rules: creator shares total exactly 100, royalty basis points at most 10,000 with a parsable constraint, group size within its maximum, no type occurring twice. Data that would break this is rejected, and data that respects it is accepted.",
 HI,"every byte string submitted on every path, every order of paths",NOPROC+" The types tests only round-trip builder output.",
 [A+"create.rs",A+"allocate.rs",A+"write.rs",A+"update.rs","programs/asset/types/src/extensions/mod.rs"],[("validation callbacks","on_create / on_update / validate")],None,["asset account after every instruction"])
p("P12","Changing one extension leaves every other byte of the asset intact",
 "After any sequence of create, update and remove instructions, walking the asset account yields exactly the extensions put there, in order, each at an 8-byte aligned place with the bytes last written to it. Growing, shrinking, replacing, adding or removing one extension, or resizing the account, changes no other extension and no base field.",
 HI,"every order of adding, resizing and removing extensions of every size, with and without spare trailing space",NOPROC,
 [A+"update.rs",A+"remove.rs",A+"resize.rs",A+"create.rs","programs/asset/types/src/state/asset.rs"],[("memmove and boundary adjustment","update.rs, remove.rs"),("extension walk","Asset::get/iter")],
 [("boundary,length","extension header","Extension header")],["full account bytes"])
p("P13","Chunked and buffered uploads are equivalent to inline data",
 "Splitting extension data into any sequence of writes, overwrites and finally a create, or staging it in a buffer account consumed by an update, yields the same asset as passing the whole data in one instruction. An extension that is still incomplete can be continued or overwritten but never turned into an asset, and no write goes past its declared length.",
 HI,"every split of the data into chunks, overwrite flags, several extensions per buffer",NOPROC,[A+"allocate.rs",A+"write.rs",A+"create.rs",A+"update.rs"],[("offset bookkeeping by account length","write.rs, allocate.rs")],None,["buffer/asset account after every instruction"])
p("P14","An asset is created once and only the entitled party can destroy it",
 "An account becomes an asset only through a create signed by that account's key, with exactly the name, owner, authority, standard and mutability requested, and is never initialized twice. It ceases to exist only through a burn signed by the owner, the delegate with the burn role or a manager with the burn role; close works only on uninitialized buffers and only with the buffer's own signature.",
 HI,"every history of create/allocate/write/close/burn over several accounts, recreation after burn",NOPROC,[A+"create.rs",A+"close.rs",A+"burn.rs",A+"allocate.rs",A+"write.rs"],[("discriminator and signer checks","each processor")],
 [("discriminator","initialized or not","Asset.discriminator")],["account existence and header"])
p("P15","Rent is always covered, refunded to the named party, and never taken unasked",
 "Every account the program owns holds at least the rent-exempt balance for its size after every instruction. Lamports leave a payer only with its signature and exactly in the amount the size change requires; closing, burning or shrinking pays the released balance, exactly and entirely, to the recipient named for it, and no lamports are created or lost.",
 HI,"every resize up or down, prefunded and over-funded accounts, all payer/recipient choices",NOPROC,["programs/asset/program/src/utils.rs",A+"burn.rs",A+"close.rs",A+"resize.rs",A+"remove.rs",A+"update.rs",A+"write.rs",A+"allocate.rs"],[("resize / close_program_account / transfer","utils.rs")],None,["lamports of every account"])
p("P16","Royalty constraints gate every non-exempt transfer",
 "A transfer invoked through another program, or involving a signer or recipient that is not a plain wallet, succeeds only if the royalty constraint of the asset — or, when the asset has none and is in a group, of its group, whose account must then be supplied — evaluates to true for the asset, signer and recipient. Direct wallet-to-wallet transfers are exempt, and a satisfied constraint never blocks a transfer.",
 HI,"every constraint tree, signer/recipient ownership, direct and cross-program invocation, asset-level and group-level royalties",NOPROC,[A+"transfer.rs","programs/asset/types/src/constraints/mod.rs","programs/asset/types/src/extensions/royalties.rs"],[("constraint assessment and exemption","transfer.rs")],None,["Transfer result"])
p("P17","Constraint encoding and evaluation follow the boolean algebra",
 "For every constraint built from and, or, not, owned-by, key-match and empty, encoding it and reading it back yields the same tree, and its evaluation equals the boolean meaning of that tree over the asset, authority and recipient accounts. Byte strings that are not the encoding of a constraint are rejected rather than evaluated.",
 ["inputs"],"every constraint tree and every assignment of keys, owners and data to the three accounts","Tests sample three or four fixed trees and never evaluate nested ones over all assignments.",
 [T+"constraints/mod.rs",T+"constraints/and.rs",T+"constraints/or.rs",T+"constraints/not.rs",T+"constraints/owned_by.rs",T+"constraints/pubkey_match.rs",T+"constraints/empty.rs"],[("assess / from_bytes / builders","constraints/*")],None,["builder bytes, assess result"])
p("P18","Managed and proxied standards always match their extensions",
 "An asset is of the managed standard exactly if it carries a manager extension, and of the proxied standard exactly if it carries a proxy extension that names the program and seeds its address is derived from; no later instruction breaks this. Every instruction on a proxied asset needs the asset's own signature, so only its proxy program can act on it.",
 HI,"every standard/extension combination at creation, every later add/remove/update attempt, every instruction on a proxied asset with and without its signature",NOPROC,[A+"create.rs",A+"update.rs",A+"remove.rs",A+"mod.rs","programs/asset/types/src/extensions/proxy.rs"],[("standard/extension cross-check","create.rs"),("proxied signature gate","processor/mod.rs")],None,["asset account, instruction result"])
p("P19","A bridged NFT is represented exactly once",
 "For every bridged mint the vault always holds the side that is not in circulation and records which: while idle it owns the bridge asset, while active it holds the original token. A bridge operation swaps the two atomically, only when the depositing party (the token's holder, or for the asset its owner or transfer delegate) signed, delivers the released side to that same party and flips the recorded state; an operation that names other accounts than the mint's own vault, token and asset fails, and nothing else releases either side from the vault.",
 HI,"every sequence of bridge calls by every signer, with mismatching vault, mint, asset and token accounts","The bridge program has no stable tests.",["programs/bridge/src/processor/bridge.rs","programs/bridge/src/processor/create.rs","programs/bridge/src/state"],[("vault state toggle with paired transfers","bridge.rs")],
 [("state","idle or active","Vault.state")],["vault, token and asset accounts"])
p("P20","A bridge asset is created once per mint and mirrors it",
 "Creating a bridge asset succeeds only for a non-fungible mint with the metadata account that belongs to it, at the addresses derived from the mint, at most once per mint, and only if the metadata's update authority signed or the mint is in a verified collection that is itself already bridged. The created asset is owned by the vault, has the metadata's update authority as its authority, and mirrors the metadata's name, symbol, uri and creators with their shares; collections become groups.",
 HI,"every metadata content, authority, account substitution and repeated creation","The bridge program has no stable tests.",["programs/bridge/src/processor/create.rs"],[("account checks and metadata translation","create.rs")],None,["vault and asset accounts"])
p("P21","Proxied assets obey their proxy program's rules",
 "The proxy program creates a proxied asset only at the address derived from the stub key that signed, and forwards an instruction on it only when the underlying program would accept it from the parties that signed: the asset's own signature, which the proxy adds, never stands in for an owner, delegate, authority or group authority that did not sign. A transfer through the proxy moves the asset and counts up its transfers by one; an update through it needs the recorded proxy authority's signature and changes only name and mutability.",
 HI,"every instruction through the proxy program, every signer","The proxy program has no stable tests.",["programs/proxy/src/processor","programs/asset/interface/src/processor.rs"],[("intercept or forward with asset signer","proxy processor")],None,["asset account after proxy calls"])
p("P22","The Rust client's mint recipe always yields the described asset",
 "For every valid description of an asset, with any extensions of any data size, the instruction list produced by the Rust client's mint helper, executed in order, succeeds and yields exactly the asset described, with no instruction exceeding the transaction size limit; the client's upload macros for on-chain callers write exactly the given data within the invocation size limit. Instructions assembled by the asset and bridge clients (structs, builders, CPI structs and CPI builders) reach the program with exactly the accounts, signer and writable flags and arguments given, accounts not given being passed as absent, and the JSON descriptions of assets and extensions encode to the content described, also when read from or written to a JSON document, which accounts survive unchanged as well.",
 ["inputs","configurations"],"every extension list, sizes around the chunk boundaries, with and without payer, group, manager","The client's own tests need a validator and are not in the stable set.",["clients/rust/asset/src/mint.rs","clients/rust/asset/src/impls.rs","clients/rust/asset/src/generated/instructions","clients/rust/bridge/src/generated/instructions"],[("chunking into allocate/write/create","mint.rs")],None,["instruction list and resulting account"])
p("P23","Instructions change only what they are documented to change",
 "Every instruction is all-or-nothing, and a successful one changes only its documented fields of the accounts it names: every other asset, every other base field (state, standard, mutability, owner, group, authority, delegate, name) and every other extension is left as it was. Input that does not decode as an instruction, or that lacks required accounts, changes nothing.",
 HI,"every instruction with every argument in every reachable state, malformed instruction data included",NOPROC,[A+"mod.rs","programs/asset/program/src/instruction.rs"],[("instruction decoding and dispatch","processor/mod.rs")],None,["all accounts after every instruction"])
p("P24","Extension builders and readers are inverse to each other",
 "For every extension type and every content within its size limits, the bytes produced by the builder are accepted by the on-chain validation and read back as exactly the content put in, with the length the header declares. Strings, keys, numbers, optional fields and lists of any count survive unchanged, wherever in an account the extension lies and whatever lies around it. The header fields of an account read the same through the program's type and the client's account type.",
 ["inputs"],"every extension type and content, incl. empty and maximal values","The tests round-trip one or two fixed values per type.",[T+"extensions",T+"state",T+"constraints","clients/rust/asset/src/generated/accounts/internal_asset.rs"],[("builder / from_bytes pairs","extensions/*")],None,["builder bytes, loaded values"])
p("P25","The IDL of a program can be read from its binary and describes the program",
 "For every IDL document, of either type, embedded in a program binary the way the include-idl macro and build script do it, reading the binary gives back exactly that type and that document, wherever in the binary the sections and their data lie; a binary that lacks either section, or whose sections are out of bounds, truncated, or not a known type and a JSON document, yields an error and never aborts the reader. The asset program embeds the published Codama IDL, and a client that knows nothing but the published IDLs encodes every instruction of the programs, and decodes account headers and extensions, exactly as the programs do. IDLs and clients give every error code the name the program gives it.",
 ["inputs","configurations"],"every document, section order and placement, every damaged binary, every instruction with every argument","No test embeds or reads an IDL, or compares an IDL with the program.",["include-idl/src/parse.rs","include-idl/src/shrink.rs","include-idl/src/lib.rs","idls"],[("section lookup, relocation-style reference, decompression","parse.rs")],None,["parsed type and document; encoded instructions and decoded accounts"])
p("P26","The JavaScript client reads and writes the on-chain formats exactly",
 "For every constraint, every extension content and every account header, the JavaScript client serialises it to exactly the bytes the programs use and reads those bytes back as the same content, wherever in an account they lie: any number of extensions in any order, trailing bytes after the last extension, metadata without an image, absent groups, delegates and optional fields, every set of roles. Looking up an extension or a property finds the first one asked for, account filters select exactly the accounts with the given field value, and vault accounts of the bridge read back as written.",
 ["inputs"],"every extension content, account layout, header and constraint tree","The JavaScript tests need a validator and are not in the stable set.",["clients/js/asset/src/hooked","clients/js/asset/src/extensions","clients/js/asset/src/constraints","clients/js/asset/src/generated/types","clients/js/asset/src/generated/accounts","clients/js/bridge/src/generated/accounts"],[("serializers and the extension walk","hooked/internalAssetAccountData.ts, extensions/*")],None,["serialised bytes and deserialised values"])
p("P27","The JavaScript client's instructions and recipes have the described effect",
 "Every instruction assembled by the JavaScript clients (asset, bridge, proxy) reaches the program with exactly the accounts, signer and writable flags and arguments given; accounts left out become their documented defaults or are passed as absent, and with a proxy the instruction is addressed to it with the asset program appended. The transactions made by mint, initialize, write and updateWithBuffer, executed in order, each fit a transaction, succeed exactly if the description is valid, and yield exactly the asset or update described, however large the extensions are; a buffer used on the way is closed again.",
 ["inputs","configurations"],"every instruction with every subset of accounts given, every asset description with sizes around the chunk limit, every update, with and without proxy","The JavaScript tests need a validator and are not in the stable set.",["clients/js/asset/src","clients/js/bridge/src","clients/js/proxy/src"],[("chunking into allocate/write/create","mint.ts, initialize.ts, write.ts, updateWithBuffer.ts"),("account resolution","generated/instructions, generated/shared")],None,["instructions and resulting accounts"])
p("P28","A refused instruction names a true cause",
 "Whenever the asset program itself refuses an instruction with an error code, what the code says is true of that instruction and the accounts it was given: a locked, immutable or soulbound asset really is, a missing signature really is missing, an unauthorised signer really lacks the right, an extension said to be missing or invalid is, a group said to be full, not empty or wrong is, an account said to be uninitialised, already initialised or owned by another program is. (When several things are wrong, any of them may be named; refusals by the runtime or a called program are not covered.)",
 ["inputs","histories"],"every refused instruction in every reachable state of the bounded universes","Tests check the code of a handful of refusals.",["programs/asset/program/src/processor","programs/asset/program/src/utils.rs","programs/asset/program/src/error.rs"],[("require! guards of every instruction","processor/*.rs"),("delegate checks","utils.rs assert_delegate")],None,["error code of the refused instruction"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(r)+"\n" for r in rows))
import subprocess
