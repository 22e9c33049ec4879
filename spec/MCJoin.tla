------------------------------- MODULE MCJoin -------------------------------
(* Small-scope model of the values derived from joinsplits: each joinsplit's signature
   hash and primary inputs follow from that joinsplit and the key, and from nothing else. *)
EXTENDS Samples, Api, Emit
VARIABLES k, js, pub, hist
vars == <<k, js, pub, hist>>
S0(i) == IF k = "sapling" THEN GJS(i) ELSE SJS(i)
Variants == <<S0(1), S0(2), [S0(1) EXCEPT !.seed = S0(3).seed], [S0(1) EXCEPT !.nulls = S0(3).nulls], [S0(1) EXCEPT !.anchor = S0(3).anchor],
              [S0(1) EXCEPT !.vold = <<1, 2, 3, 4, 5, 6, 7, 8>>, !.vnew = Zeros(8)], [S0(1) EXCEPT !.vold = Zeros(8), !.vnew = <<1, 2, 3, 4, 5, 6, 7, 8>>]>>
Pubs == {Pat(7, 1, 32), Zeros(32), Pat(7, 2, 32)}
Init == k \in {"sprout", "overwinter", "sapling"} /\ js \in {<<v>> : v \in 1..Len(Variants)} /\ pub = Pat(7, 1, 32) /\ hist = <<>>
D(x, p) == [Sample(k, 1) EXCEPT !.js = Tup([i \in 1..Len(x) |-> Variants[x[i]]]), !.pub = Opt(p)]
More == Len(js) < (IF Deep THEN 3 ELSE 2) /\ \E v \in 1..Len(Variants) : js' = Append(js, v) /\ pub' = pub
Rekey == Len(hist) < 1 /\ \E p \in Pubs : pub' = p /\ p # pub /\ js' = js
Next == k' = k /\ hist' = Append(hist, <<js, pub>>) /\ Len(hist) < (IF Deep THEN 2 ELSE 1) /\ (More \/ Rekey)
Spec == Init /\ [][Next]_vars
H(x, p) == Tup([i \in 1..Len(x) |-> HSig(Variants[x[i]], p)])
PI(x, p) == Tup([i \in 1..Len(x) |-> Primary(Variants[x[i]], p)])
Joined == LET d == D(js, pub) IN HSigs(k, d) = H(js, pub) /\ Primaries(k, d) = PI(js, pub)
Each == \A i \in 1..Len(js) : H(js, pub)[i] = H(<<js[i]>>, pub)[1] /\ PI(js, pub)[i] = PI(<<js[i]>>, pub)[1]
Order == H(Rev(js), pub) = Rev(H(js, pub))
\* exactly seed, nullifiers and key decide the signature hash; anything in the joinsplit shows in the primary inputs
Decides == hist = <<>> => LET h == HSig(Variants[js[1]], pub) IN \A v \in 1..Len(Variants) : \A p \in Pubs : LET a == Variants[js[1]] c == Variants[v] IN
  (HSig(c, p) = h) <=> (a.seed = c.seed /\ a.nulls = c.nulls /\ p = pub)
Valid == Verdict(Faults(HomeOf(k), k, D(js, pub))) = "yes"
Mk(x, p, form) == Act("mk", [k |-> k, d |-> D(x, p), form |-> form, wrong |-> <<>>, swap |-> <<>>, vswap |-> <<>>])
EmitAll == Valid => Session(<<Reset, Use(HomeOf(k)),
     IF Len(hist) % 2 = 0 THEN Mk(js, pub, <<"bytes", "bytearray", "bytedata">>[1 + (js[1] % 3)]) ELSE Act("parse", [k |-> k, b |-> Ser(k, D(js, pub)), form |-> "bytes"])>>
   \o (IF hist = <<>> THEN <<>> ELSE LET o == hist[Len(hist)] IN
       <<Act("copy", [k |-> k, d |-> D(o[1], o[2]), src |-> <<"mk", "parse">>[1 + (Len(js) % 2)], fields |-> <<"js", "pub">>, d2 |-> D(js, pub), form |-> "bytes"])>>))
=============================================================================
