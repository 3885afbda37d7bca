--------------------------------- MODULE U_bad ---------------------------------
(* Data that is not an instruction: unknown discriminators, truncated or       *)
(* overlong arguments, values outside their enumeration, and account lists     *)
(* that are too short. Everything that would otherwise be allowed is signed.   *)
EXTENDS Gen

Bk == X(T_Bucket, << 1, 2, 3, 4 >>)
At == X(T_Attributes, << 1, 97, 1, 98 >>)
Gr == X(T_Grouping, Grouping(0, "SYS"))
Cr == X(T_Creators, Creator("u1", 0, 100))
A0(es) == Asset(0, TRUE, "u1", "u1", Name1, es)
Buf1 == [k |-> "buf", exts |-> << [t |-> T_Bucket, n |-> 4, d |-> << 1 >>] >>, len |-> HDR + EXT + 1, xl |-> 0]
Inits == {[A |-> a, B |-> Buf1, G |-> A0(<< Gr >>)] :
            a \in {NONE, Buf1, A0(<< >>), A0(<< Bk, At, Cr >>), [A0(<< At >>) EXCEPT !.st = 1], [A0(<< >>) EXCEPT !.da = "u1", !.dr = 7]}}
Bound(s) == FALSE

All == << "A", "B", "G", "u1", "u2", "u5" >>
Bad(acc, d) == IBad(acc, All, d)
\* accounts suited to the instruction with discriminator n
Accs == << << "A", "u6" >>, << "A", "u1", "u6", "-" >>, << "A", "u1", "u1", "-", "-", "u5", "SYS" >>, << "A", "u1", "u2" >>,
           << "A", "u5", "SYS" >>, << "A", "u1" >>, << "A", "u1" >>, << "A", "u1", "u2", "-" >>, << "A", "u1" >>, << "A", "u1" >>,
           << "A", "u1", "-", "-", "u5", "SYS" >>, << "A", "u1" >>, << "A", "u5", "SYS" >>, << "A", "G", "u1" >>, << "A", "G", "u1" >>,
           << "A", "u1", "u2" >>, << "A", "u1", "-", "u6" >>, << "A", "u1", "u5", "SYS" >> >>
\* a complete instruction for each discriminator
Exb == << 11 >> \o B32(4) \o << 1 >> \o B32(4) \o << 9, 8, 7, 6 >>
Whole == << << 0 >>, << 1 >>, << 2 >> \o B32(1) \o << 65, 0, 1, 1 >> \o B32(1) \o Exb, << 3, 1 >> \o B32(1) \o << 1 >>, << 4 >> \o Exb, << 5 >>,
            << 6, 1 >> \o B32(1) \o << 1 >>, << 7 >>, << 8 >>, << 9 >>, << 10, 1 >> \o B32(1) \o << 65, 1, 0, 1 >> \o Exb, << 11 >>,
            << 12, 0 >> \o B32(3) \o << 2, 3, 4 >>, << 13 >>, << 14 >>, << 15 >>, << 16, 1 >>, << 17, 1, 8, 0 >> >>
\* how many leading accounts are required by each
Need == << 2, 2, 3, 3, 1, 2, 2, 3, 2, 2, 2, 2, 3, 3, 3, 3, 4, 3 >>
Put(s, j, v) == [s EXCEPT ![j] = v]
Instrs == Cat(<<
    << Bad(Accs[8], << >>) >>,
    Seq_({Bad(Accs[8], << d >>) : d \in {18, 19, 100, 255}}),
    \* every proper prefix that is not empty, and one byte too many
    Cat([n \in 1..18 |-> [l \in 1..(Len(Whole[n]) - 1) |-> Bad(Accs[n], SubSeq(Whole[n], 1, l))]]),
    [n \in 1..18 |-> Bad(Accs[n], Append(Whole[n], 0))],
    \* too few accounts
    Cat([n \in 1..18 |-> [m \in 1..(Need[n] - 1) |-> Bad(SubSeq(Accs[n], 1, m), Whole[n])]]),
    \* standard, mutability, option tags
    Seq_({Bad(Accs[3], Put(Whole[3], 7, v)) : v \in {4, 5, 255}}),
    Seq_({Bad(Accs[3], Put(Whole[3], 8, v)) : v \in {2, 255}}),
    Seq_({Bad(Accs[3], Put(Whole[3], 9, v)) : v \in {2, 255}}),
    \* extension types
    Seq_({Bad(Accs[3], Put(Whole[3], 14, v)) : v \in {12, 13, 200, 255}}),
    Seq_({Bad(Accs[5], Put(Whole[5], 2, v)) : v \in {12, 255}}),
    Seq_({Bad(Accs[11], Put(Whole[11], 10, v)) : v \in {12, 255}}),
    Seq_({Bad(Accs[17], << 16, v >>) : v \in {12, 13, 255}}),
    \* roles and role options
    Seq_({Bad(Accs[n], Put(Whole[n], 7, v)) : n \in {4, 7}, v \in {4, 8, 255}}),
    Seq_({Bad(Accs[n], Put(Whole[n], 2, v)) : n \in {4, 7}, v \in {2, 255}}),
    \* names are UTF-8
    Seq_({Bad(Accs[3], Put(Whole[3], 6, v)) : v \in {128, 195, 255}}),
    Seq_({Bad(Accs[11], Put(Whole[11], 7, v)) : v \in {128, 195, 255}}),
    Seq_({Bad(Accs[11], Put(Whole[11], 9, v)) : v \in {2, 255}}),
    Seq_({Bad(Accs[13], Put(Whole[13], 2, v)) : v \in {2, 255}}),
    Seq_({Bad(Accs[18], Put(Whole[18], 2, v)) : v \in {2, 255}}),
    \* lengths beyond the data
    Seq_({Bad(Accs[n], [Whole[n] EXCEPT ![Len(Whole[n]) - 4] = 200]) : n \in {5}}),
    \* the instructions above, unharmed
    << I0("Burn", << "A", "u1", "u6", "-" >>, All), I0("Transfer", << "A", "u1", "u2", "-" >>, All), I0("Lock", << "A", "u1" >>, All), I0("Unlock", << "A", "u1" >>, All),
       I0("Close", << "A", "u6" >>, All), I0("Group", << "A", "G", "u1" >>, All), I0("Handover", << "A", "u1", "u2" >>, All), I0("Verify", << "A", "u1" >>, All),
       IDel("Approve", << "A", "u1", "u2" >>, All, FALSE, << 1 >>), IDel("Revoke", << "A", "u1" >>, All, FALSE, << 1 >>),
       ICreate(<< "A", "u1", "u1", "-", "-", "u5", "SYS" >>, All, Name1, 0, TRUE, << Bk >>),
       IAllocate(<< "A", "u5", "SYS" >>, All, Bk), IWrite(<< "A", "u5", "SYS" >>, All, FALSE, << 2, 3, 4 >>),
       IExt("A", "u1", "u5", All, Bk), IRemove(<< "A", "u1", "-", "u6" >>, All, 1), IResize(<< "A", "u1", "u5", "SYS" >>, All, FALSE, 8) >>
    >>)
=============================================================================
