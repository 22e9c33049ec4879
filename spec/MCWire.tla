------------------------------- MODULE MCWire -------------------------------
(* Small-scope model of the wire formats: a transaction is assembled part by part;
   every reachable object must survive serialise-and-parse, none of its proper
   prefixes or extensions may be read as a whole object, and whatever a damaged
   encoding is read as must serialise back to the damaged bytes.               *)
EXTENDS Wire, Emit
VARIABLE d
K == IOEnv.MC_KIND
MaxParts == 2
B == Ser(K, d)

NetFor == CASE K = "sprout" -> "zcash_sprout_main" [] K = "overwinter" -> "zcash_overwinter_test"
            [] K = "sapling" -> "zcash_sapling_main" [] K = "decred" -> "decred_test"
            [] OTHER -> "bitcoin_main"

Op(i) == Rep(16 * i + 1, 32) \o <<i, 0, 0, 0>>
Sigs == {<<>>, <<1, 81>>, <<253, 97>>} \cup (IF Deep THEN {<<81>>, Rep(97, 253)} ELSE {})
InOf(i, s) == LET sp == SplitScriptSig(NetFor, Op(i), s) IN
              [op |-> Op(i), stack |-> sp.stack, redeem |-> sp.redeem, seq |-> <<i, 255, 255, 255>>]
Scripts == {<<>>, <<81>>} \cup (IF Deep THEN {Rep(97, 251), Rep(97, 252)} ELSE {})
OutOf(i, s) == [value |-> <<i, 0, 0, 0, 0, 0, 0, 128>>, script |-> s]
DInOf(i) == [op |-> Op(i) \o <<i % 2>>, seq |-> <<255, 255, 255, i>>]
DOutOf(i, s) == [value |-> <<i, 1, 0, 0, 0, 0, 0, 0>>, version |-> <<i % 2, 0>>, script |-> s]
DWitOf(i, s) == [value |-> <<i, 2, 0, 0, 0, 0, 0, 0>>, height |-> <<i, 0, 0, 0>>, index |-> <<0, 0, 0, i>>,
                 stack |-> s, redeem |-> <<>>]
Wits == {<<>>, <<<<1>>, <<2, 3>>>>} \cup (IF Deep THEN {<<<<>>>>} ELSE {})
Rec(fs, sizes, i) == [f \in {fs[j] : j \in 1..Len(fs)} |->
                        Rep(i, sizes[CHOOSE j \in 1..Len(fs) : fs[j] = f])]
JSOf(sizes, i) == [Rec(JSFields, sizes, 16 + i) EXCEPT !.vold = Zeros(8), !.vnew = <<i, 0, 0, 0, 0, 0, 0, 0>>]
SpendOf(i) == Rec(SpendFields, SpendSizes, 32 + i)
SOutOf(i)  == Rec(OutFields, OutSizes, 48 + i)

Base == [version |-> <<1, 0, 0, 0>>, ins |-> <<>>, outs |-> <<>>, lock |-> <<9, 8, 7, 6>>]
ZBase == [ins |-> <<>>, outs |-> <<>>, lock |-> <<9, 8, 7, 6>>, expiry |-> <<1, 2, 3, 4>>,
          js |-> <<>>, pub |-> None, sig |-> None]
Inits == CASE K = "tx" -> {[Base EXCEPT !.version = v] @@ [flag |-> f, wits |-> <<>>] :
                              v \in {<<1, 0, 0, 0>>}, f \in {None, Opt(SegwitFlag)}}
           [] K = "sprout" -> {[Base EXCEPT !.version = v] @@ [js |-> <<>>, pub |-> None, sig |-> None] :
                                  v \in {<<1, 0, 0, 0>>, <<2, 0, 0, 0>>}}
           [] K = "overwinter" -> {ZBase}
           [] K = "sapling" -> {ZBase @@ [vb |-> Zeros(8), spends |-> <<>>, souts |-> <<>>, bsig |-> None]}
           [] K = "decred" -> {[Base EXCEPT !.version = v] @@ [expiry |-> <<1, 2, 3, 4>>, wits |-> <<>>] :
                                  v \in {<<1, 0, 0, 0>>, <<1, 0, 1, 0>>}}
Init == d \in Inits

F(f) == f \in DOMAIN d
Zero(fs) == \A f \in fs : F(f) => d[f] = <<>>
AddIn == /\ Zero({"outs", "wits", "js", "spends", "souts"}) /\ Len(d.ins) < MaxParts
         /\ \E x \in IF K = "decred" THEN {DInOf(Len(d.ins) + 1)} ELSE {InOf(Len(d.ins) + 1, s) : s \in Sigs} :
              d' = [d EXCEPT !.ins = Append(@, x)]
AddOut == /\ Zero({"wits", "js", "spends", "souts"}) /\ Len(d.outs) < MaxParts
          /\ \E s \in Scripts : LET n == Len(d.outs) + 1 IN
               d' = [d EXCEPT !.outs = Append(@, IF K = "decred" THEN DOutOf(n, s) ELSE OutOf(n, s))]
AddWit == /\ F("wits") /\ Len(d.wits) < (IF K = "tx" /\ d.flag = None THEN 1 ELSE Len(d.ins) + 1)
          /\ (Deep \/ Len(d.outs) = 1)
          /\ \E x \in IF K = "decred" THEN {DWitOf(Len(d.wits) + 1, s) : s \in {<<>>, <<81>>}} ELSE Wits :
               d' = [d EXCEPT !.wits = Append(@, x)]
AddJS == /\ F("js") /\ Len(d.js) < 1 /\ Len(d.outs) < 2 /\ Len(d.ins) < 2
         /\ d' = [d EXCEPT !.js = Append(@, JSOf(IF K = "sapling" THEN GJSSizes ELSE SJSSizes, Len(d.js) + 1)),
                           !.pub = Opt(Rep(77, 32)), !.sig = Opt(Rep(78, 64))]
AddSpend == /\ F("spends") /\ d.js = <<>> /\ d.souts = <<>> /\ Len(d.spends) < MaxParts /\ Len(d.ins) < 2
            /\ d' = [d EXCEPT !.spends = Append(@, SpendOf(Len(d.spends) + 1)), !.bsig = Opt(Rep(79, 64)),
                              !.vb = <<1, 0, 0, 0, 0, 0, 0, 255>>]
AddSOut == /\ F("souts") /\ d.js = <<>> /\ Len(d.souts) < MaxParts - 1 /\ Len(d.ins) < 2
           /\ d' = [d EXCEPT !.souts = Append(@, SOutOf(Len(d.souts) + 1)), !.bsig = Opt(Rep(79, 64))]
Next == AddIn \/ AddOut \/ AddWit \/ AddJS \/ AddSpend \/ AddSOut
Spec == Init /\ [][Next]_d

\* ---- what is checked in every state ------------------------------------------------

Valid == Verdict(Faults(NetFor, K, d)) = "yes"
Readable == Valid /\ K # "decred" /\ \A i \in 1..Len(d.outs) : Len(d.outs[i].script) <= MAXPARSEOUT
\* all positions of a short encoding; both ends and samples of a long one
\* (the quick tier takes a share of them, another share from state to state)
Spots(n, len) ==
  LET share == IF Deep THEN 1 ELSE IF len < 90 THEN 2 ELSE 7 IN
  {i \in 0..n : (i + len) % share = 0 /\ (i <= 130 \/ i > n - 110 \/ i % 97 = 0)}
Bytewise == EnvOr("MC_EMIT", "objects") # "objects"
Checked == Readable /\ (Deep \/ Bytewise)
RoundTrip == Readable =>
  LET p == Parse(NetFor, K, B) IN p.st = "yes" /\ p.d = Shown(K, d)
Unreadable == Valid /\ ~Readable => Parse(NetFor, K, B).st = "no"
NoPrefix == Checked => LET b == B IN \A n \in Spots(Len(b) - 1, Len(b)) :
  LET p == Parse(NetFor, K, Take(b, n)) IN
  p.st = "yes" => K = "tx" /\ p.d.flag # None /\ p.d.wits = <<>>
NoExtension == Checked => LET b == B IN \A x \in {<<0>>, <<1>>, <<0, 0>>} :
  LET p == Parse(NetFor, K, b \o x) IN p.st = "yes" => Ser(K, p.d) = b \o x
Values(len) == IF Deep THEN <<0, 1, 2, 252, 253>> ELSE <<<<0, 253>>, <<2, 254>>, <<1, 255>>>>[1 + (len % 3)]
Damage(len) == LET v == Values(len) IN SetToSeq({<<i, v[j]>> : i \in Spots(len, len) \ {0}, j \in 1..Len(v)})
Exact == Checked => LET b0 == B dm == Damage(Len(b0)) IN Deep \/ Len(b0) < 200 => \A j \in 1..Len(dm) :
  LET b == [b0 EXCEPT ![dm[j][1]] = dm[j][2]] p == Parse(NetFor, K, b) IN p.st # "no" => Ser(K, p.d) = b
\* ids ignore witnesses, nothing else
IdSplit == K = "tx" /\ Valid => SerTxNoWit(d) = SerTx([d EXCEPT !.flag = None, !.wits = <<>>])
DecredSplit == K = "decred" /\ Valid => B = d.version \o Drop(DPrefix(d), 4) \o Drop(DWitness(d), 4)

Acts == LET b == B IN
        <<Reset, Use(NetFor),
          Act("mk", [k |-> K, d |-> d, form |-> "bytes", wrong |-> <<>>, swap |-> <<>>, vswap |-> <<>>])>>
        \o (IF K = "decred" THEN <<>> ELSE <<Act("parse", [k |-> K, b |-> b, form |-> "bytes"])>>)
        \o (IF K = "decred" \/ ~Bytewise THEN <<>>
            ELSE <<Act("cuts", [k |-> K, b |-> b \o <<0, 0>>, ns |-> SetToSeq(Spots(Len(b) + 2, Len(b)))]),
                   Act("flips", [k |-> K, b |-> b, at |-> Damage(Len(b))])>>)
EmitAll == Session(Acts)
=============================================================================
