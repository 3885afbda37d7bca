-------------------------------- MODULE Errors --------------------------------
(* The error codes of the programs: the name of code n is entry n + 1.         *)
EXTENDS Integers, Sequences
ErrNames == [asset |-> << "AlreadyInitialized", "InvalidAccountLength", "IncompleteExtensionData", "Uninitialized", "ExtensionNotFound",
                          "InvalidAlignment", "InvalidBurnAuthority", "InvalidTransferAuthority", "DelegateNotFound", "DelegateRoleNotActive",
                          "InvalidDelegate", "InvalidAssetOwner", "LockedAsset", "InvalidAuthority", "ImmutableAsset", "CannotTransferSoulbound",
                          "ExtensionDataInvalid", "InvalidGroup", "AssertionFailure", "GroupNotEmpty", "AlreadyInGroup", "ExtensionLengthInvalid" >>,
             bridge |-> << "InvalidMint", "InvalidAuthority" >>,
             proxy |-> << "InvalidMint", "InvalidAuthority" >>]
ErrProgs == << "asset", "bridge", "proxy" >>
\* a code none of them uses has no name
ErrName(p, n) == IF n < Len(ErrNames[p]) THEN ErrNames[p][n + 1] ELSE ""
ErrCodes == [j \in 1..26 |-> j - 1] \o << 99, 255, 256, 6000, 65536 >>
ErrCases == [j \in 1..(3 * Len(ErrCodes)) |-> [k |-> "err", prog |-> ErrProgs[1 + (j % 3)], code |-> ErrCodes[1 + ((j - 1) \div 3)]]]
\* every source names every code as the program does
ErrGood(c, o, srcs) == /\ {o.outs[j].src : j \in 1..Len(o.outs)} = srcs
                       /\ \A j \in 1..Len(o.outs) : o.outs[j].name = ErrName(c.prog, c.code)
=============================================================================
