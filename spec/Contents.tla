------------------------------- MODULE Contents -------------------------------
(* Extension contents to build and read back, alone and inside an account. *)
EXTENDS Ext, Tier, TLC, FiniteSets, SequencesExt

Str(n) == [i \in 1..n |-> 97 + (i % 26)]
Str2(n) == [i \in 1..n |-> 48 + (i % 10)]
Utf == << 195, 169, 240, 159, 152, 128, 32, 0, 226, 130, 172 >>
Raw(n) == [i \in 1..n |-> (i * 37) % 256]
Key(i) == [j \in 1..32 |-> (i * 31 + j * 7) % 256]
Ones(n) == [j \in 1..n |-> 255]
Pair(a, b) == [a |-> a, b |-> b]

Lens == IF Deep THEN {0, 1, 2, 3, 7, 8, 9, 31, 32, 100, 127, 128, 129, 254, 255} ELSE {0, 1, 7, 8, 127, 128, 255}
Small == {0, 1, 255}
PairLists ==
    {<< >>} \cup {<< Pair(Str(a), Str2(b)) >> : a \in Lens, b \in Lens}
    \cup {<< Pair(Str(a), Str2(b)), Pair(Str2(c), Str(d)) >> : a \in Small, b \in Small, c \in Small, d \in Small}
    \cup {<< Pair(Str(3), Str(4)), Pair(Str(3), Str(5)), Pair(Utf, Utf) >>}
    \cup {[j \in 1..n |-> Pair(Str(j % 9), Str2((j * 5) % 17))] : n \in {3, 4, 5, 6, 7, 20, 60}}
Blobs == {[ct |-> Str(a), data |-> Raw(b)] : a \in Lens, b \in {0, 1, 7, 8, 255, 256, 1000}}
Buckets == {[data |-> Raw(b)] : b \in {0, 1, 2, 7, 8, 9, 255, 256, 257, 2000}}
Cr(i, v, s) == [key |-> Key(i), ver |-> v, share |-> s]
CrU(k, v, s) == [key |-> KB(k), ver |-> v, share |-> s]
Creatorss ==
    {<< >>, << CrU("u1", 0, 100) >>, << CrU("u1", 1, 100) >>, << CrU("u1", 1, 50), CrU("u2", 1, 50) >>,
     << CrU("u2", 0, 255), CrU("u1", 0, 101) >>, << CrU("u2", 0, 200), CrU("u3", 0, 156) >>,
     << CrU("u1", 0, 30), CrU("u1", 1, 70) >>, << CrU("u3", 1, 0), CrU("u2", 1, 99) >>}
    \cup {[j \in 1..n |-> Cr(j, j % 2, IF j = 1 THEN 100 ELSE 0)] : n \in {1, 2, 3, 5, 34, 100, 254, 255, 256, 257, 300}}
    \cup {[j \in 1..n |-> Cr(j, 0, 100 \div n)] : n \in {2, 3, 4, 5, 10, 100}}
Opts == {<< >>, << << >> >>, << Str(1) >>, << Utf >>, << Str2(255) >>}
Metas == {<< a, b, c, d >> : a \in Opts, b \in Opts, c \in Opts, d \in (IF Deep THEN Opts ELSE {<< >>, << Str(1) >>, << Str2(255) >>})}
N64 == {Zero(8), << 1, 0, 0, 0, 0, 0, 0, 0 >>, << 255, 0, 0, 0, 0, 0, 0, 0 >>, << 0, 1, 0, 0, 0, 0, 0, 0 >>,
        << 0, 0, 0, 0, 1, 0, 0, 0 >>, << 1, 2, 3, 4, 5, 6, 7, 8 >>, Ones(8)}
Groupings == {[max |-> m, del |-> d] : m \in {<< >>} \cup {<< n >> : n \in N64}, d \in {<< >>, << Key(3) >>, << Zero(32) >>, << Ones(32) >>}}
Trees3 == {TEmpty, TMatch(2, <<"u1", "PX">>), TNot(TOwned(1, <<"PX">>)), TAnd(<< TOr(<< TEmpty, TMatch(0, << >>) >>), TNot(TEmpty) >>), TOr(<< >>)}
Bps == N64 \cup {B64(500), B64(9999), B64(10000), B64(10001), B64(65536 + 500), << 16, 39, 0, 0, 1, 0, 0, 0 >>}
Royals == {[bp |-> b, tree |-> t] : b \in Bps, t \in Trees3}
Managers == {[key |-> k, roles |-> r] : k \in {Key(1), Zero(32), Ones(32)}, r \in 0..8 \cup {255}}
Proxies == {[prog |-> p, seeds |-> s, bump |-> b, auth |-> a] :
               p \in {Key(1), Zero(32)}, s \in {Key(2), Zero(32), Ones(32)}, b \in {0, 1, 254, 255}, a \in {<< >>, << Key(4) >>, << Zero(32) >>, << Ones(32) >>}}
Pr(n, ty, v) == [name |-> n, ty |-> ty, v |-> v]
Vals == {<< 0, Str(l) >> : l \in Small \cup {7, 8}} \cup {<< 0, Utf >>} \cup {<< 1, n >> : n \in N64} \cup {<< 2, << b >> >> : b \in {0, 1}}
FewVals == {<< 0, << >> >>, << 0, Str(255) >>, << 1, << 1, 2, 3, 4, 5, 6, 7, 8 >> >>, << 2, << 0 >> >>, << 2, << 1 >> >>}
Propss == {<< >>} \cup {<< Pr(Str(n), v[1], v[2]) >> : n \in Lens, v \in Vals}
          \cup {<< Pr(Str(n), v[1], v[2]), Pr(Str2(m), w[1], w[2]), Pr(Utf, 1, Ones(8)) >> : n \in {0, 3}, m \in {0, 5}, v \in FewVals, w \in FewVals}
          \cup {<< Pr(Str(2), v[1], v[2]), Pr(Str(2), w[1], w[2]) >> : v \in FewVals, w \in FewVals}
          \cup {[j \in 1..n |-> Pr(Str(j), j % 3, IF j % 3 = 0 THEN Str2(j) ELSE IF j % 3 = 1 THEN Raw(8) ELSE << 1 >>)] : n \in {4, 5, 6, 7, 40}}

Contents(t) == CASE t \in {T_Attributes, T_Links} -> PairLists
                 [] t = T_Blob -> Blobs       [] t = T_Creators -> Creatorss
                 [] t = T_Metadata -> Metas   [] t = T_Grouping -> Groupings
                 [] t = T_Royalties -> Royals [] t = T_Manager -> Managers
                 [] t = T_Proxy -> Proxies    [] t = T_Properties -> Propss
                 [] t = T_Bucket -> Buckets
Types == 1..11

\* random contents
Pick(S) == RandomElement(S)
RStr == LET n == Pick(0..255) IN [j \in 1..n |-> Pick(0..127)]
RBytes(n) == [j \in 1..n |-> Pick(0..255)]
RandC(t) ==
    CASE t \in {T_Attributes, T_Links} -> [j \in 1..Pick(0..12) |-> Pair(RStr, RStr)]
      [] t = T_Blob -> [ct |-> RStr, data |-> RBytes(Pick(0..600))]
      [] t = T_Bucket -> [data |-> RBytes(Pick(0..600))]
      [] t = T_Creators -> [j \in 1..Pick(0..20) |-> [key |-> RBytes(32), ver |-> Pick(0..1), share |-> Pick(0..255)]]
      [] t = T_Metadata -> [j \in 1..4 |-> IF Pick(1..4) = 1 THEN << >> ELSE << RStr >>]
      [] t = T_Grouping -> [max |-> << RBytes(8) >>, del |-> << RBytes(32) >>]
      [] t = T_Royalties -> [bp |-> RBytes(8), tree |-> Pick(Trees3)]
      [] t = T_Manager -> [key |-> RBytes(32), roles |-> Pick(0..255)]
      [] t = T_Proxy -> [prog |-> RBytes(32), seeds |-> RBytes(32), bump |-> Pick(0..255), auth |-> << RBytes(32) >>]
      [] t = T_Properties -> [j \in 1..Pick(0..12) |->
             LET ty == Pick(0..2) IN Pr(RStr, ty, IF ty = 0 THEN RStr ELSE IF ty = 1 THEN RBytes(8) ELSE << Pick(0..1) >>)]

\* whole accounts
Sample == [t \in Types |->
    CASE t \in {T_Attributes, T_Links} -> << Pair(Str(3), Str2(2)) >>
      [] t = T_Blob -> [ct |-> Str(4), data |-> Raw(11)]
      [] t = T_Creators -> << CrU("u1", 0, 100) >>
      [] t = T_Metadata -> << << Str(2) >>, << >>, << Str(5) >>, << >> >>
      [] t = T_Grouping -> [max |-> << B64(5) >>, del |-> << Key(6) >>]
      [] t = T_Royalties -> [bp |-> B64(700), tree |-> TMatch(2, <<"u1">>)]
      [] t = T_Manager -> [key |-> Key(7), roles |-> 5]
      [] t = T_Proxy -> [prog |-> Key(1), seeds |-> Key(2), bump |-> 254, auth |-> << Key(9) >>]
      [] t = T_Properties -> << Pr(Str(3), 1, Raw(8)), Pr(Str(2), 0, Str2(3)) >>
      [] t = T_Bucket -> [data |-> Raw(13)]]
Sample2 == [t \in Types |->
    CASE t \in {T_Attributes, T_Links} -> << >>
      [] t = T_Blob -> [ct |-> << >>, data |-> << >>]
      [] t = T_Creators -> << CrU("u2", 0, 60), CrU("u3", 0, 40) >>
      [] t = T_Metadata -> << << >>, << >>, << >>, << Str(8) >> >>
      [] t = T_Grouping -> [max |-> << >>, del |-> << >>]
      [] t = T_Royalties -> [bp |-> B64(0), tree |-> TEmpty]
      [] t = T_Manager -> [key |-> Key(8), roles |-> 0]
      [] t = T_Proxy -> [prog |-> Key(2), seeds |-> Key(3), bump |-> 0, auth |-> << >>]
      [] t = T_Properties -> << >>
      [] t = T_Bucket -> [data |-> << >>]]
\* codes: << 1 or 2, type >> for a sample, << 3 + n, type >> for n bytes of an unknown type
Item(x) == IF x[1] < 3 THEN [t |-> x[2], raw |-> FALSE, c |-> IF x[1] = 1 THEN Sample[x[2]] ELSE Sample2[x[2]]]
           ELSE [t |-> x[2], raw |-> TRUE, c |-> Raw(x[1] - 3)]
Codes == (1..2) \X Types
Singles == {<< x >> : x \in Codes} \cup {<< >>}
Doubles == {<< x, y >> : x \in Codes, y \in Codes}
Unknowns == {<< << 8, 12 >> >>, << << 3, 255 >>, << 1, 1 >> >>}
            \cup {<< << 1, t >>, << 3 + n, 12 >>, << 1, u >> >> : t \in {1, 3, 11}, u \in {2, 6, 9}, n \in {0, 9, 16}}
Full == {[j \in 1..11 |-> << 1, j >>], [j \in 1..11 |-> << 2, 12 - j >>], [j \in 1..22 |-> IF j < 12 THEN << 2, j >> ELSE << 1, j - 11 >>]}
Tails == {<< >>, Zero(8), Zero(16), Zero(40)}
Accounts == {<< es, tl >> : es \in Singles \cup Unknowns \cup Full, tl \in Tails} \cup {<< es, << >> >> : es \in Doubles}
\* far from the beginning of the account: behind an extension of n bytes
Far(n, t) == << [t |-> T_Bucket, raw |-> FALSE, c |-> [data |-> [j \in 1..n |-> (j * 7 + (j \div 256)) % 251]]], Item(<< 1, t >>), Item(<< 2, 1 + (t % 10) >>) >>
Fars == SetToSeq({<< n, t >> : n \in {300, 4100, 33000, 66000}, t \in {1, 3, 6, 8, 10}})
RandE == LET t == Pick(Types) IN [t |-> t, raw |-> FALSE, c |-> RandC(t)]
=============================================================================
