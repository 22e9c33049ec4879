------------------------------ MODULE MCSighash ------------------------------
(* Small-scope model of signature digests.  A state is a signing request and an edited
   copy of it; the digests must agree exactly when what the digest promises to commit
   to agrees (Committed, written independently of the preimage layouts).          *)
EXTENDS Sighash, Emit
VARIABLES d, a, d2, a2, n
vars == <<d, a, d2, a2, n>>
S == IOEnv.MC_KIND        \* legacy bip143 fork sprout overwinter sapling decred
K == IF S \in {"legacy", "bip143", "fork"} THEN "tx" ELSE S
NetFor == CASE S = "sprout" -> "zcash_sprout_main" [] S = "overwinter" -> "zcash_overwinter_main"
            [] S = "sapling" -> "zcash_sapling_test" [] S = "decred" -> "decred_main"
            [] S = "fork" -> "bitcoin_gold_main" [] OTHER -> "bitcoin_main"
MaxN == IF Deep THEN 3 ELSE 2
Dcr == S = "decred"
Op(i) == Rep(16 * i + 1, 32) \o <<i, 0, 0, 0>> \o (IF Dcr THEN <<0>> ELSE <<>>)
InOf(i) == IF Dcr THEN [op |-> Op(i), seq |-> <<i, 255, 255, 255>>]
           ELSE [op |-> Op(i), stack |-> <<81>>, redeem |-> <<>>, seq |-> <<i, 255, 255, 255>>]
OutOf(i) == IF Dcr THEN [value |-> <<i, 0, 0, 0, 0, 0, 0, 0>>, version |-> <<0, 0>>, script |-> <<81>>]
            ELSE [value |-> <<i, 0, 0, 0, 0, 0, 0, 0>>, script |-> <<81>>]
WitOf(i) == IF Dcr THEN [value |-> <<i, 0, 0, 0, 0, 0, 0, 0>>, height |-> <<i, 0, 0, 0>>, index |-> <<0, 0, 0, 0>>,
                         stack |-> <<81>>, redeem |-> <<>>]
            ELSE <<<<i>>>>
Seq1(f(_), m) == Tup([i \in 1..m |-> f(i)])
Rec(fs, sizes, i) == [f \in {fs[j] : j \in 1..Len(fs)} |-> Rep(i, sizes[CHOOSE j \in 1..Len(fs) : fs[j] = f])]
JSOf(i) == [Rec(JSFields, IF S = "sapling" THEN GJSSizes ELSE SJSSizes, 16 + i)
              EXCEPT !.vold = Zeros(8), !.vnew = <<i, 0, 0, 0, 0, 0, 0, 0>>]
Zc == [js |-> <<>>, pub |-> None, sig |-> None]
WithJS == [js |-> <<JSOf(1)>>, pub |-> Opt(Rep(77, 32)), sig |-> Opt(Rep(78, 64))]
Shapes == (1..MaxN) \X (1..MaxN)
Base(s) == [ins |-> Seq1(InOf, s[1]), outs |-> Seq1(OutOf, s[2]), lock |-> <<9, 0, 0, 0>>]
Bases ==
  CASE K = "tx" -> {Base(s) @@ [version |-> <<1, 0, 0, 0>>, flag |-> IF S = "bip143" THEN Opt(SegwitFlag) ELSE None,
                                wits |-> IF S = "bip143" THEN Seq1(WitOf, s[1]) ELSE <<>>] : s \in Shapes}
    [] S = "sprout" -> {Base(s) @@ [version |-> <<2, 0, 0, 0>>] @@ Zc : s \in Shapes}
                       \cup {Base(<<1, 1>>) @@ [version |-> <<1, 0, 0, 0>>] @@ Zc, Base(<<1, 1>>) @@ [version |-> <<2, 0, 0, 0>>] @@ WithJS}
    [] S = "overwinter" -> {Base(s) @@ [expiry |-> <<7, 0, 0, 0>>] @@ Zc : s \in Shapes}
                       \cup {Base(<<1, 1>>) @@ [expiry |-> <<7, 0, 0, 0>>] @@ WithJS}
    [] S = "sapling" -> {Base(s) @@ [expiry |-> <<7, 0, 0, 0>>, vb |-> Zeros(8), spends |-> <<>>, souts |-> <<>>, bsig |-> None] @@ Zc : s \in Shapes}
                       \cup {Base(<<1, 1>>) @@ [expiry |-> <<7, 0, 0, 0>>, vb |-> <<1, 0, 0, 0, 0, 0, 0, 0>>,
                                                spends |-> <<Rec(SpendFields, SpendSizes, 33)>>,
                                                souts |-> <<Rec(OutFields, OutSizes, 49)>>, bsig |-> Opt(Rep(79, 64))] @@ WithJS}
    [] S = "decred" -> {Base(s) @@ [version |-> <<1, 0, 0, 0>>, expiry |-> <<7, 0, 0, 0>>, wits |-> Seq1(WitOf, s[1])] : s \in Shapes}
Script == IF Dcr THEN <<81, 82>> ELSE <<2, 81, 82>>
Args == {[idx |-> i, base |-> b, acp |-> c, script |-> Script, value |-> Opt(<<5, 0, 0, 0, 0, 0, 0, 0>>), js |-> j, via |-> "wrap"] :
           i \in 0..MaxN - 1, b \in {"all", "single", "none"}, c \in BOOLEAN,
           j \in IF S \in {"overwinter", "sapling"} THEN BOOLEAN ELSE {FALSE}}
BlankArgs == IF S \in {"legacy", "sprout", "decred"}
             THEN {[x EXCEPT !.script = IF Dcr THEN <<>> ELSE <<0>>] : x \in {y \in Args : ~y.acp /\ y.base # "none"}} ELSE {}
Init == /\ d \in Bases /\ a \in {x \in Args \cup BlankArgs : x.idx < Len(d.ins)} /\ d2 = d /\ a2 = a /\ n = 0

F(f) == f \in DOMAIN d
Inc(b) == [b EXCEPT ![1] = (@ + 100) % 256]
MapAt(s, i, f(_)) == [s EXCEPT ![i] = f(@)]
IxI == 1..Len(d2.ins)
IxO == 1..Len(d2.outs)
NextOut == OutOf(9)
Edits ==
     (IF F("version") /\ S # "sprout" THEN {[d2 EXCEPT !.version = Inc(@)]} ELSE {})
  \cup {[d2 EXCEPT !.lock = Inc(@)]}
  \cup (IF F("expiry") THEN {[d2 EXCEPT !.expiry = Inc(@)]} ELSE {})
  \cup {[d2 EXCEPT !.ins[i].op = Inc(@)] : i \in IxI}
  \cup {[d2 EXCEPT !.ins[i].op[33] = 200] : i \in IxI}
  \cup {[d2 EXCEPT !.ins[i].seq = Inc(@)] : i \in IxI}
  \cup (IF Dcr THEN {} ELSE {[d2 EXCEPT !.ins[i].stack = <<82, 83>>] : i \in IxI} \cup {[d2 EXCEPT !.ins[i].redeem = <<1, 81>>] : i \in IxI})
  \cup {[d2 EXCEPT !.outs[i].value = Inc(@)] : i \in IxO}
  \cup {[d2 EXCEPT !.outs[i].script = <<82>>] : i \in IxO}
  \cup {[d2 EXCEPT !.outs[i].script = <<>>] : i \in IxO}
  \cup (IF Dcr THEN {[d2 EXCEPT !.outs[i].version = <<1, 0>>] : i \in IxO}
                    \cup {[d2 EXCEPT !.wits[i].stack = <<83>>] : i \in IxI} \cup {[d2 EXCEPT !.wits[i].value = Inc(@)] : i \in IxI}
                    \cup {[d2 EXCEPT !.version[3] = 1]}
        ELSE {})
  \cup {[d2 EXCEPT !.outs = Append(@, NextOut)]}
  \cup (IF Len(d2.outs) > 1 THEN {[d2 EXCEPT !.outs = Tail(@)], [d2 EXCEPT !.outs = SubSeq(@, 1, Len(@) - 1)],
                                  [d2 EXCEPT ![ "outs" ] = [@ EXCEPT ![1] = d2.outs[2], ![2] = d2.outs[1]]]} ELSE {})
  \cup (IF F("wits") /\ d2.wits # <<>> THEN
          {[d2 EXCEPT !.ins = Append(@, InOf(9)), !.wits = Append(@, WitOf(9))]}
          \cup (IF Len(d2.ins) > 1 THEN {[d2 EXCEPT !.ins = [@ EXCEPT ![1] = d2.ins[2], ![2] = d2.ins[1]]]} ELSE {})
        ELSE {[d2 EXCEPT !.ins = Append(@, InOf(9))]}
          \cup (IF Len(d2.ins) > 1 THEN {[d2 EXCEPT !.ins = [@ EXCEPT ![1] = d2.ins[2], ![2] = d2.ins[1]]]} ELSE {}))
  \cup (IF S = "bip143" THEN {[d2 EXCEPT !.wits[i] = <<<<7, 7>>>>] : i \in IxI} \cup {[d2 EXCEPT !.wits = <<>>]} ELSE {})
  \cup (IF S = "fork" THEN {[d2 EXCEPT !.flag = Opt(SegwitFlag)]} ELSE {})
  \cup (IF F("js") /\ d2.js # <<>> THEN
          {[d2 EXCEPT !.js[1][f] = Inc(@)] : f \in {"vnew", "anchor", "nulls", "comms", "ek", "seed", "macs", "proof", "notes"}}
          \cup {[d2 EXCEPT !.pub = Opt(Rep(76, 32))], [d2 EXCEPT !.sig = Opt(Rep(75, 64))], [d2 EXCEPT !.js = Append(@, JSOf(2))],
                [d2 EXCEPT !.js = <<>>, !.pub = None, !.sig = None]}
        ELSE {})
  \cup (IF F("spends") /\ d2.spends # <<>> THEN
          {[d2 EXCEPT !.spends[1][f] = Inc(@)] : f \in {"cv", "anchor", "nullifier", "rk", "proof", "auth"}}
          \cup {[d2 EXCEPT !.souts[1][f] = Inc(@)] : f \in {"cv", "cmu", "ek", "enc", "outc", "proof"}}
          \cup {[d2 EXCEPT !.vb = Inc(@)], [d2 EXCEPT !.bsig = Opt(Rep(74, 64))], [d2 EXCEPT !.spends = Append(@, Rec(SpendFields, SpendSizes, 34))],
                [d2 EXCEPT !.spends = <<>>], [d2 EXCEPT !.souts = <<>>]}
        ELSE {})
ArgEdits ==
     {[a2 EXCEPT !.base = IF @ = "all" THEN "single" ELSE "all"]}
  \cup (IF S \in {"overwinter", "sapling"} /\ a2.base # "none" THEN {[a2 EXCEPT !.base = "none"]} ELSE {})
  \cup {[a2 EXCEPT !.acp = ~@],
      [a2 EXCEPT !.script = IF Dcr THEN <<81>> ELSE <<1, 81>>], [a2 EXCEPT !.value = Opt(<<6, 0, 0, 0, 0, 0, 0, 0>>)]}
  \cup (IF a2.idx + 1 < Len(d2.ins) THEN {[a2 EXCEPT !.idx = @ + 1]} ELSE {})
Next == /\ n < (IF Deep THEN 2 ELSE 1) /\ n' = n + 1 /\ UNCHANGED <<d, a>>
        /\ \/ d2' \in Edits /\ a2' = a2
           \/ a2' \in ArgEdits /\ d2' = d2
Spec == Init /\ [][Next]_vars
\* the number of edits is bookkeeping only
View == <<d, a, d2, a2>>

V1 == SigVerdict(NetFor, K, d, a)
V2 == SigVerdict(NetFor, K, d2, a2)
Wellformed == Verdict(Faults(NetFor, K, d)) = "yes"
Sound == (V1 = "yes" /\ V2 = "yes" /\ Verdict(Faults(NetFor, K, d2)) = "yes") =>
           ((Committed(NetFor, K, d, a) = Committed(NetFor, K, d2, a2))
            <=> (Digest(NetFor, K, d, a) = Digest(NetFor, K, d2, a2)))
\* replay: every request on its own, and every edited pair, through the library
Refusable == a.base # "none" \/ S \in {"overwinter", "sapling"} \/ n = 0    \* nothing to compare where 'none' is refused
EmitAll == Refusable =>
  IF n = 0 THEN Session(<<Reset, Use(NetFor)>> \o [s \in 1..3 |->
         Act("sig", [k |-> K, d |-> d, src |-> <<"mk", "copy", IF Dcr THEN "mk" ELSE "parse">>[s],
                     reqs |-> <<a, [a EXCEPT !.via = "kw"]>>])])
  ELSE (n = 1 \/ ~Deep) => Session(<<Reset, Use(NetFor), Act("pair", [k |-> K, d1 |-> d, d2 |-> d2, a1 |-> a, a2 |-> a2])>>)
=============================================================================
