------------------------------- MODULE MCStack -------------------------------
(* Small-scope model of witness stacks: items arrive one by one, the stack is written,
   read back, cut short, run on, and miscounted.                                       *)
EXTENDS Samples, Api, Emit
VARIABLES items
ItemLens == {0, 1, 2, 252, 253} \cup (IF Deep THEN {3, 75, 251, 254, 255, 256} ELSE {})
Item(n, i) == Tup([j \in 1..n |-> IF n < 5 THEN n - j ELSE (j * 7 + i) % 256])
Init == items = <<>>
Next == Len(items) < (IF Deep THEN 4 ELSE 3) /\ \E n \in (IF Len(items) < 3 THEN ItemLens ELSE {0, 1, 253}) : items' = Append(items, Item(n, Len(items)))
Spec == Init /\ [][Next]_items
D == [stack |-> items]
N0 == "bitcoin_main"
B == Ser("witness", D)
RoundTrip == \A x \in {<<>>, <<0>>, <<253, 1>>} : LET p == Parse(N0, "witness", B \o x) IN p.st = "yes" /\ p.d = D
\* a cut stack is not a stack
CutShort == \A n \in {0, 1, 2, Len(B) - 2, Len(B) - 1} : n >= 0 /\ n < Len(B) => Parse(N0, "witness", Take(B, n)).st # "yes"
InjectiveLaw == \A i \in 1..Len(items) : items[i] # <<>> => B # Ser("witness", [stack |-> [items EXCEPT ![i] = Drop(@, 1)]])
WholeLen == Len(B) = Len(CS(Len(items))) + Len(CatMap(LAMBDA i : Ser("witem", [item |-> i]), items))
P(x) == Act("parse", [k |-> "witness", b |-> x, form |-> <<"bytes", "bytearray", "bytedata", "hex">>[1 + (Len(x) % 4)]])
EmitAll == Session(<<Reset, Use(IF Len(items) % 2 = 0 THEN N0 ELSE "zcash_sapling_main"),
    Act("mk", [k |-> "witness", d |-> D, form |-> <<"bytes", "bytearray", "bytedata">>[1 + (Len(B) % 3)], wrong |-> <<>>, swap |-> <<>>, vswap |-> <<>>]),
    P(B), P(B \o <<0>>), P(Take(B, Len(B) - 1)), P(<<(B[1] + 1) % 253>> \o Drop(B, 1)), P(<<Max2(0, B[1] - 1)>> \o Drop(B, 1)),
    Act("tb", [f |-> "witness", items |-> items])>>
  \o (IF Len(items) = 1 THEN <<Act("mk", [k |-> "witem", d |-> [item |-> items[1]], form |-> "bytes", wrong |-> <<>>, swap |-> <<>>, vswap |-> <<>>]),
                              Act("parse", [k |-> "witem", b |-> Drop(B, 1), form |-> "bytes"]), Act("parse", [k |-> "witem", b |-> Drop(B, 1) \o <<9>>, form |-> "bytes"]),
                              Act("tb", [f |-> "witness_stack_item", data |-> items[1]])>> ELSE <<>>))
=============================================================================
