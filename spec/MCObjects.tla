------------------------------ MODULE MCObjects ------------------------------
(* SmallKind-scope model of objects in memory: objects are made, copied with some fields
   replaced, and attacked; an object, once made, is the same for ever.              *)
EXTENDS Samples, Api, Emit
VARIABLES k, heap, hist, step
vars == <<k, heap, hist, step>>
Mode == IOEnv.MC_KIND     \* life | copies
Kinds == IF Mode = "life" THEN AllKinds ELSE Copiers
Fs == DOMAIN Sample(k, 1)
Home == HomeOf(k)
Forms == <<"bytes", "bytearray", "bytedata">>
Hows == {"set", "setnew", "del", "append", "setbytes", "item", "args", "allargs", "observed", "outputs", "vec", "copy"}
Ns == IF Deep THEN {0, 2, 4, 9, 11, 16, 18, 25, 36, 50, 57, 64, 71} ELSE {0, 9, 16, 25, 36, 50}
Signable == k \in TxKinds
Req == [idx |-> 0, base |-> "all", acp |-> FALSE, script |-> IF k = "decred" THEN <<81>> ELSE <<1, 81>>, value |-> Opt(<<5, 0, 0, 0, 0, 0, 0, 0>>), js |-> FALSE, via |-> "wrap"]
NewAct(h, s, d, f) == Act("new", [h |-> h, k |-> k, d |-> d, src |-> s, form |-> f, d0 |-> IF s = "copy" THEN Sample(k, 2) ELSE <<>>])
SmallKind == k \notin {"sprout", "overwinter", "sapling", "sjs", "gjs", "gspend", "goutput", "gproof", "sproof"}
Depth == IF Mode = "copies" \/ (Deep /\ SmallKind) THEN 3 ELSE 2
CopyOf(h, h0, d) == Act("new", [h |-> h, k |-> k, d |-> d, src |-> "copyof", h0 |-> h0, form |-> "bytes"])
Srcs == {"mk"} \cup (IF Deep /\ k \in Parsers THEN {"parse"} ELSE {}) \cup (IF Deep /\ k \in Copiers THEN {"copy"} ELSE {})
\* an object takes shape (optional parts it has no use for are dropped)
Init == /\ k \in Kinds /\ heap = <<>> /\ hist = <<>> /\ step = 0
Make == /\ heap = <<>>
        /\ \E s \in Srcs : \E i \in {1 + ((Cardinality(Fs) + (IF s = "mk" THEN 0 ELSE IF s = "copy" THEN 1 ELSE 2)) % 3)} :
             /\ hist' = <<NewAct(1, s, Sample(k, 1), Forms[i])>>
             /\ heap' = 1 :> Shown(k, Sample(k, 1))
Attack == /\ heap # <<>>
          /\ \E h \in DOMAIN heap : \E how \in Hows : \E n \in Ns :
               /\ (Mode = "copies" => how \in {"args", "allargs", "observed", "append"} /\ n \in {0, 9})
               /\ (step = 2 => n = 9 /\ how \in {"args", "append", "set", "observed"})
               /\ hist' = hist \o <<Act("attack", [h |-> h, how |-> how, n |-> n]), Act("obs", [h |-> h, k |-> k])>>
          /\ heap' = heap
Sign == /\ heap # <<>> /\ Signable
        /\ hist' = hist \o <<Act("hsig", [h |-> 1, k |-> k, reqs |-> <<Req>>])>> /\ heap' = heap
Away == /\ heap # <<>>
        /\ hist' = hist \o <<Use(IF k \in DecredKinds THEN "bitcoin_main" ELSE "decred_main"), Act("obs", [h |-> 1, k |-> k]), Use(Home)>> /\ heap' = heap
\* replaced fields: as given, blank, or reordered (all still valid or not: the specification decides)
Blanked(f) == IF f \in OptionFields(k) THEN None ELSE <<>>
Subsets == {s \in SUBSET Fs : Cardinality(s) <= (IF Deep THEN 3 ELSE 1)} \cup {Fs}
Pairs == {s \in SUBSET Fs : Cardinality(s) <= (IF Deep /\ SmallKind THEN 2 ELSE 1)} \cup {Fs}
CopyWith == /\ DOMAIN heap = {1} /\ k \in Copiers /\ step = 1
            /\ \E s \in Pairs : LET d3 == Override(k, heap[1], s, Sample(k, 2)) fs == SetToSeq(s) IN
                 IF Verdict(Faults(Home, k, d3)) # "yes" THEN FALSE
                 ELSE /\ hist' = Append(hist, Act("hcopy", [h |-> 1, h2 |-> 2, k |-> k, fields |-> fs, d2 |-> Sample(k, 2)]))
                      /\ heap' = heap @@ (2 :> Shown(k, d3))
CopyWhole == /\ DOMAIN heap = {1} /\ k \in Copiers /\ step = 1
             /\ hist' = Append(hist, CopyOf(2, 1, heap[1])) /\ heap' = heap @@ (2 :> heap[1])
Next == /\ step < Depth /\ step' = step + 1 /\ k' = k
        /\ \/ Make \/ Attack \/ (Mode = "life" /\ Sign) \/ (Mode = "life" /\ Away) \/ (Mode = "copies" /\ (CopyWith \/ CopyWhole))
Spec == Init /\ [][Next]_vars
\* nothing that exists ever changes
Frozen == [][\A h \in DOMAIN heap : h \in DOMAIN heap' /\ heap'[h] = heap[h]]_vars
\* laws of copying
CopyLaws == Mode = "copies" /\ step = 0 => LET d1 == Shown(k, Sample(k, 1)) d2 == Sample(k, 2) IN
  /\ Override(k, d1, {}, d2) = d1
  /\ \A s \in Subsets : LET o == Override(k, d1, s, d2) IN
       /\ \A f \in Fs : o[f] = IF f \in s THEN d2[f] ELSE d1[f]
       /\ Override(k, o, s, d2) = o
       /\ \A t \in Subsets : s \cap t = {} => Override(k, Override(k, d1, s, d2), t, d2) = Override(k, d1, s \cup t, d2)
       /\ (k = "tx" \/ ((Ser(k, o) = Ser(k, d1)) <=> (o = d1)))
Leaf == step = Depth
EmitAll == Leaf => Session(<<Reset, Use(Home)>> \o hist \o Tup([h \in 1..Cardinality(DOMAIN heap) |-> Act("obs", [h |-> h, k |-> k])]))
Flat == Mode = "copies" /\ step = 0 =>
  LET ss == SetToSeq(Subsets \cup (IF Deep THEN {} ELSE {s \in SUBSET Fs : Cardinality(s) = 2 /\ k \in {"tx", "txin", "txout", "dtxout", "dwitness", "decred"}}))
      d2 == Sample(k, 2)
      Src1(j) == IF k \in Parsers /\ j % 3 = 0 THEN "parse" ELSE IF j % 3 = 1 THEN "copy" ELSE "mk" IN
  \A j \in 1..Len(ss) :
    /\ Session(<<Reset, Use(Home), Act("copy", [k |-> k, d |-> Sample(k, 1), src |-> Src1(j), fields |-> SetToSeq(ss[j]), d2 |-> d2, form |-> Forms[1 + (j % 3)]])>>)
    /\ (Cardinality(ss[j]) # 1 \/ LET f == CHOOSE f \in ss[j] : TRUE IN
          Session(<<Reset, Use(Home), Act("copy", [k |-> k, d |-> Sample(k, 1), src |-> Src1(j), fields |-> <<f>>, d2 |-> [d2 EXCEPT ![f] = Blanked(f)], form |-> "bytes"])>>))
=============================================================================
