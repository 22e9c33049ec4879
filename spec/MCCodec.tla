------------------------------- MODULE MCCodec -------------------------------
(* Small-scope model of the three address encodings: a payload is encoded, then the text
   is damaged character by character on its way to the reader.                       *)
EXTENDS Address, Emit
VARIABLES net, b, t, n
vars == <<net, b, t, n>>
E == IOEnv.MC_KIND       \* b58 b58raw bech cash
Fill(i, len) == Tup([j \in 1..len |-> (37 * j + 11 * i) % 256])
Nets == CASE E = "b58" -> {"bitcoin_main", "decred_main", "zcash_sprout_main"} [] E = "b58raw" -> {"bitcoin_main"}
          [] E = "bech" -> {"bitcoin_main", "litecoin_test", "bitcoin_reg"} \cup (IF Deep THEN {"feathercoin_reg", "viacoin_simnet"} ELSE {})
          [] OTHER -> {"bitcoin_cash_main", "bitcoin_cash_test"}
Payloads ==
  CASE E = "b58" -> {<<>>, <<0>>, <<0, 0>>, <<255>>, Net("bitcoin_main").p2pkh \o Fill(1, 20), Zeros(21), <<0, 0, 0>> \o Fill(2, 18), <<28, 184>> \o Fill(3, 20)}
                    \cup (IF Deep THEN {Rep(255, i) : i \in 1..24} \cup {Zeros(i) \o Fill(i, 22 - i) : i \in 0..22} ELSE {})
    [] E = "b58raw" -> {Zeros(z) \o v : z \in 0..3, v \in {<<>>, <<1>>, <<57>>, <<58>>, <<255>>, <<1, 0>>, <<13, 36>>, <<13, 35>>, <<255, 255>>, <<1, 0, 0>>, Fill(5, 8), Fill(6, 20)}}
    [] E = "bech" -> {<<v>> \o Fill(v, len) : v \in {0, 1, 16} \cup (IF Deep THEN {2, 15, 17, 31} ELSE {17}),
                                              len \in {0, 1, 2, 3, 4, 5, 19, 20, 21, 32, 33, 40, 41} \cup (IF Deep THEN 6..39 ELSE {})}
                     \cup {<<0>> \o Zeros(20), <<0>> \o Rep(255, 32)}
    [] OTHER -> {<<v>> \o Fill(v, len) : v \in {0, 8, 16, 1, 128, 11}, len \in {0, 1, 2, 3, 4, 19, 20, 21, 24, 32}}
EncOf == CASE E = "b58" -> Good(B58CheckEnc(net, b)) [] E = "b58raw" -> Good(B58Enc(b))
           [] E = "bech" -> Bech32Enc(net, b[1], Drop(b, 1)) [] OTHER -> CashaddrEnc(net, b)
DecOf(x) == CASE E = "b58" -> B58CheckDec(net, x) [] E = "b58raw" -> B58Dec(x) [] E = "bech" -> Bech32Dec(net, x) [] OTHER -> CashaddrDec(net, x)
Want == IF E = "bech" THEN <<b[1], Len(b) - 1>> \o Drop(b, 1) ELSE b
Init == /\ net \in Nets /\ b \in Payloads /\ n = 0
        /\ t = IF EncOf.ok THEN EncOf.v ELSE <<>>

\* ---- damage: only some payloads are followed through the noise
Main == b \in CASE E = "b58" -> {Net("bitcoin_main").p2pkh \o Fill(1, 20), <<0, 0>>, Zeros(21)} [] E = "b58raw" -> {<<0, 13, 36>>, Fill(6, 20)}
              [] E = "bech" -> {<<0>> \o Fill(0, 20), <<1>> \o Fill(1, 2)} \cup (IF Deep THEN {<<0>> \o Fill(0, 32), <<16>> \o Fill(16, 40)} ELSE {})
              [] OTHER -> {<<0>> \o Fill(0, 20), <<8>> \o Fill(8, 20)}
Alpha == IF E \in {"b58", "b58raw"} THEN B58 ELSE B32
HeadLen == CASE E = "bech" -> Len(Net(net).hrp) + 1 [] E = "cash" -> Len(Net(net).ca) + 1 [] OTHER -> 0
\* the quick tier replaces each character by a share of the alphabet
Chars(i) == {Alpha[j] : j \in {k \in 1..Len(Alpha) : Deep \/ (k + i) % 8 = 0}} \cup (IF i % 9 = 0 THEN {48, 73, 98, 105, 111, 33, 32, 126, 128, 233} ELSE {})
Sub == \E i \in 1..Len(t) : \E c \in Chars(i) \ {t[i]} : t' = [t EXCEPT ![i] = c]
Sub2 == \E i \in 1..Len(t) : LET v == IF t[i] = Alpha[7] THEN Alpha[9] ELSE Alpha[7] IN t[i] # v /\ i % (IF Deep THEN 2 ELSE 5) = 0 /\ t' = [t EXCEPT ![i] = v]
Swap == \E i \in 1..Len(t) - 1 : t[i] # t[i + 1] /\ t' = [t EXCEPT ![i] = t[i + 1], ![i + 1] = t[i]]
Del == \E i \in 1..Len(t) : t' = SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Ins == \E i \in 0..Len(t) : \E c \in {Alpha[1], Alpha[2]} : t' = Take(t, i) \o <<c>> \o Drop(t, i)
Case1 == \E i \in 1..Len(t) : t[i] # UpperC(t[i]) /\ t' = [t EXCEPT ![i] = UpperC(@)]
CaseAll == t' \in {UpperT(t), UpperT(Take(t, HeadLen)) \o Drop(t, HeadLen), Take(t, HeadLen) \o UpperT(Drop(t, HeadLen))} \ {t}
Prefix == t' \in {Drop(t, HeadLen), Drop(t, 1), <<32>> \o t, t \o <<32>>, t \o <<10>>, t \o t, <<>>}
Noise == /\ Main /\ t # <<>> /\ UNCHANGED <<net, b>> /\ n' = n + 1
         /\ \/ n = 0 /\ (Sub \/ Swap \/ Del \/ Ins \/ Case1 \/ CaseAll \/ Prefix)
            \/ n = 1 /\ E \in {"bech", "cash"} /\ Len(t) = Len(EncOf.v) /\ (\E i \in 1..Len(t) : t[i] = Alpha[7] /\ t[i] # EncOf.v[i]) /\ Sub2
Next == Noise
Spec == Init /\ [][Next]_vars

\* ---- what the encodings promise
Hamming(x, y) == Cardinality({i \in 1..Len(x) : x[i] # y[i]})
RoundTrip == n = 0 /\ EncOf.ok => DecOf(t) = Good(Want)
\* whatever is read is what would have been written (up to case, for bech32)
Canonical == LET d == DecOf(t) IN d.ok =>
  CASE E = "b58" -> B58CheckEnc(net, d.v) = t [] E = "b58raw" -> B58Enc(d.v) = t
    [] E = "bech" -> Bech32Enc(net, d.v[1], Drop(d.v, 2)) = Good(LowerT(t)) [] OTHER -> CashaddrEnc(net, d.v) = Good(t)
\* the accelerated base conversion is the defined one
RebaseLaw == E \in {"b58", "b58raw"} /\ n = 0 =>
  LET vs == MapSeq(B58Val, t) IN Rebase(b, 256, 58) = RebaseDef(b, 256, 58) /\ Rebase(vs, 58, 256) = RebaseDef(vs, 58, 256)
\* up to four wrong characters never go unnoticed
Detects == n \in {1, 2} /\ E \in {"bech", "cash"} /\ Len(t) = Len(EncOf.v) /\ LowerT(t) # EncOf.v /\ Hamming(LowerT(t), EncOf.v) <= 4
           => ~DecOf(t).ok
\* the same text on another network of the same encoding
Foreign == n = 0 /\ EncOf.ok /\ E \in {"bech", "cash"} =>
  \A m \in Nets \ {net} : (IF E = "bech" THEN Net(m).hrp # Net(net).hrp ELSE Net(m).ca # Net(net).ca) =>
     ~(IF E = "bech" THEN Bech32Dec(m, t).ok ELSE CashaddrDec(m, t).ok)

Decs == CASE E = "b58" -> <<Act("b58", [f |-> <<"dec", "dec_check", "has">>[1 + ((Len(t) + n) % 3)], t |-> t, dflt |-> TRUE, check |-> TRUE])>>
          [] E = "b58raw" -> <<Act("b58", [f |-> "dec", t |-> t, dflt |-> FALSE, check |-> FALSE])>>
          [] E = "bech" -> <<Act("bech32", [f |-> "dec", t |-> t])>>
          [] OTHER -> <<Act("cash", [f |-> "dec", t |-> t])>>
Encs == CASE E = "b58" -> <<Act("b58", [f |-> "enc", b |-> b, dflt |-> TRUE, check |-> TRUE]), Act("b58", [f |-> "enc_check", b |-> b])>>
          [] E = "b58raw" -> <<Act("b58", [f |-> "enc", b |-> b, dflt |-> FALSE, check |-> FALSE])>>
          [] E = "bech" -> <<Act("bech32", [f |-> "enc", b |-> <<b[1], Len(b) - 1>> \o Drop(b, 1)])>>
          [] OTHER -> <<Act("cash", [f |-> "enc", b |-> b])>>
EmitAll == Session(<<Reset, Use(net)>> \o (IF n = 0 THEN Encs ELSE <<>>) \o Decs
                   \o (IF n > 0 /\ Len(t) % 3 = 0 THEN <<Act("addr", [f |-> "parse_hash", t |-> t])>> ELSE <<>>))
=============================================================================
