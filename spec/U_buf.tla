--------------------------------- MODULE U_buf ---------------------------------
(* Buffers: chunked uploads, creation from a buffer, update from a buffer.    *)
EXTENDS Gen

R(n, b) == [j \in 1..n |-> (b + j) % 256]
Cr2 == Creator("u1", 1, 60) \o Creator("u2", 1, 40)
Bl == << 1, 97 >> \o R(8, 50)            \* 10 bytes
Bk == R(9, 10)
\* accounts set up by their own key beforehand, with room to spare
Given(n) == [k |-> "buf", exts |-> << >>, len |-> n, xl |-> 0]
Inits == {[A |-> a, B |-> b, G |-> Asset(0, TRUE, "u1", "u1", Name1, es)] :
            es \in {<< X(T_Bucket, R(3, 1)), X(T_Attributes, << 1, 97, 1, 98 >>) >>},
            a \in {NONE, Given(168), Given(200), Given(400)}, b \in {NONE, Given(320)}}
Size(s, k) == IF s[k].k = "buf" THEN Len(s[k].exts) ELSE 0
\* only uploads that are still on track (or complete) are continued
Full(t) == IF t = T_Blob THEN Bl ELSE Bk
OnTrack(s, k) == s[k].k = "buf" => \A j \in 1..Len(s[k].exts) :
    LET e == s[k].exts[j] IN e.d = SubSeq(Full(e.t), 1, Len(e.d)) \/ (Deep /\ Complete(e))
Bound(s) == /\ OnTrack(s, "A") /\ OnTrack(s, "B")
            /\ s.A.xl = 0 /\ s.B.xl = 0 /\ s.G.xl = 0
            /\ s.A.k # "none" => s.B.k = "none"
            /\ Size(s, "A") <= 2
            /\ s.B.k # "none" => Size(s, "B") <= 2
            /\ s.A.k # "none" => s.G = (CHOOSE x \in Inits : TRUE).G
            /\ Deep \/ Len(s.G.exts) <= 2
            /\ s.A.k = "asset" => s.B.k = "none"

Part(t, n, d) == [t |-> t, n |-> n, hd |-> TRUE, d |-> d]
Al(k, e) == IAllocate(<< k, "u5", "SYS" >>, << k, "u5" >>, e)
Wr(k, ow, d) == IWrite(<< k, "u5", "SYS" >>, << k, "u5" >>, ow, d)
Exts == {X(T_Blob, Bl), Part(T_Blob, 10, SubSeq(Bl, 1, 4)), [t |-> T_Blob, n |-> 10, hd |-> FALSE, d |-> << >>],
         Part(T_Bucket, 9, SubSeq(Bk, 1, 8)), X(T_Bucket, << >>), [t |-> T_Bucket, n |-> 0, hd |-> FALSE, d |-> << >>],
         Part(T_Bucket, 2, << 1, 2, 3 >>), X(T_None, << 1, 2, 3 >>), X(T_None, << >>)}
Instrs == Cat(<<
    Seq_({Al(k, e) : k \in {"A", "B"}, e \in Exts}),
    Seq_({Wr(k, ow, d) : k \in {"A", "B"}, ow \in BOOLEAN,
          d \in {SubSeq(Bl, 5, 10), SubSeq(Bl, 1, 4), Bl, << >>, SubSeq(Bk, 9, 9), Bk, << 1, 200, 3, 4, 5, 6 >>}}),
    Seq_({ICreate(<< "A", "u1", "u1", "-", "-", "u5", "SYS" >>, << "A", "u5" >>, Name1, 0, TRUE, es) :
          es \in {<< >>, << X(T_Bucket, Bk) >>, << Part(T_Bucket, 9, R(3, 1)) >>,
                  << X(T_Attributes, << 1, 97, 1, 98 >>), X(T_Bucket, Bk), X(T_Links, << 1, 97, 1, 99 >>) >>,
                  << X(T_Bucket, Bk), X(T_Bucket, Bk) >>}}),
    Seq_({IBuf("G", "u1", b, "u5", << "u1", "u5" >>) : b \in {"A", "B", "G", "F1", "F2", "u2"}}),
    << IUpdate(<< "G", "u1", "B", "-", "u5", "SYS" >>, << "u1", "u5" >>, FALSE, << >>, FALSE, FALSE, TRUE, X(T_Bucket, Bk)),
       IBuf("G", "u2", "B", "u5", << "u2", "u5" >>),
       IExt("G", "u1", "u5", << "u1", "u5" >>, X(T_Bucket, R(3, 1))) >>,
    Seq_({I0("Close", << k, to >>, sg) : k \in {"A", "B", "G"}, to \in {"u2", "A", "B"}, sg \in {<< "A" >>, << "B" >>, << "G" >>, << "u2" >>}}),
    << IAllocate(<< "A", "u5", "SYS" >>, << "u5" >>, X(T_Bucket, Bk)),
       IAllocate(<< "A", "u5", "SYS" >>, << "A" >>, X(T_Bucket, Bk)),
       IAllocate(<< "A", "-", "SYS" >>, << "A" >>, X(T_Bucket, Bk)),
       IAllocate(<< "G", "u5", "SYS" >>, << "G", "u5" >>, X(T_Links, << >>)),
       IWrite(<< "A", "u5", "SYS" >>, << "u5" >>, FALSE, << 1 >>),
       IWrite(<< "A", "u5", "SYS" >>, << "A" >>, FALSE, << 1 >>),
       IWrite(<< "A", "u5", "PX" >>, << "A", "u5" >>, FALSE, << 1 >>),
       IWrite(<< "G", "u5", "SYS" >>, << "G", "u5" >>, TRUE, << 1 >>) >>,
    \* the payer signs, the buffer does not (another account may)
    Seq_({IWrite(<< k, "u5", "SYS" >>, << "u5" >> \o z, ow, d) : k \in {"A", "B"}, z \in {<< >>, << "u1" >>}, ow \in BOOLEAN, d \in {Bl, << >>, SubSeq(Bl, 5, 10)}}),
    Seq_({IAllocate(<< k, "u5", "SYS" >>, << "u5" >>, e) : k \in {"A", "B"}, e \in {X(T_Blob, Bl), [t |-> T_Blob, n |-> 10, hd |-> FALSE, d |-> << >>], X(T_Bucket, << >>)}}),
    Seq_({ICreate(<< "A", "u1", "u1", "-", "-", "u5", "SYS" >>, << "u5", "u1" >>, Name1, 0, TRUE, es) : es \in {<< >>, << X(T_Bucket, Bk) >>}})
    >>)
=============================================================================
