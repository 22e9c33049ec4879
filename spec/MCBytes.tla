------------------------------- MODULE MCBytes -------------------------------
(* Small-scope model of byte containers: two containers grow from bytes and from each
   other, and are compared and searched after every step; containers never share.     *)
EXTENDS Api, Emit
VARIABLES heap, hist
vars == <<heap, hist>>
Hs == {1, 2}
Atoms == {<<>>, <<0>>, <<0, 65>>} \cup (IF Deep THEN {<<65, 65>>} ELSE {})
Steps == IF Deep THEN 3 ELSE 2
FormsT == <<"bytes", "bytearray", "bytedata">>
FormOf(n) == FormsT[1 + (n % 3)]
New(h, x, n) == Act("bx_new", [h |-> h, how |-> IF x = <<>> THEN "empty" ELSE <<"bytes", "hex">>[1 + (n % 2)], b |-> x, form |-> FormOf(n),
                               t |-> IF n % 4 < 2 THEN ToHexText(x) ELSE UpperT(ToHexText(x)), k |-> "", d |-> <<>>])
Init == \E x \in Atoms : \E y \in Atoms : heap = <<x, y>> /\ hist = <<New(1, x, Len(y)), New(2, y, Len(x) + 1)>>
Grow(h, x, a) == heap' = [heap EXCEPT ![h] = @ \o x] /\ hist' = Append(hist, a)
Next == /\ Len(hist) < 2 + Steps
        /\ \E h \in Hs :
             \/ \E x \in Atoms \ {<<>>} : Grow(h, x, Act("bx_append", [h |-> h, form |-> FormOf(Len(hist) + Len(x)), h2 |-> 1, b |-> x]))
             \/ \E g \in Hs : Grow(h, heap[g], Act("bx_append", [h |-> h, form |-> "handle", h2 |-> g, b |-> <<>>]))
             \/ Len(hist) = 2 /\ heap = <<<<0>>, <<0, 65>>>> /\ \E w \in Wrongs : Grow(h, <<>>, Act("bx_append", [h |-> h, form |-> w, h2 |-> 1, b |-> <<>>]))
Spec == Init /\ [][Next]_vars
\* a step appends to one container and leaves the other alone
OnlyGrows == [][\A h \in Hs : StartsWith(heap'[h], heap[h])]_vars
Apart == [][\E h \in Hs : heap'[h] = heap[h]]_vars
\* searching finds the first occurrence, and only occurrences
Subs(b) == {SubSeq(b, i, j) : i \in 1..Len(b), j \in 0..Len(b)}
Finding == \A h \in Hs : \A x \in Subs(heap[1]) \cup Subs(heap[2]) : LET b == heap[h] i == FindSub(b, x) IN
  IF i = 0 THEN x \notin Subs(b) /\ x # <<>>
  ELSE SubSeq(b, i, i + Len(x) - 1) = x /\ \A j \in 1..i - 1 : SubSeq(b, j, j + Len(x) - 1) # x
Slicing == \A h \in Hs : LET b == heap[h] n == Len(b) IN \A k \in 0..n :
  PySlice(b, [lo |-> 0, hi |-> k, st |-> 1]) \o PySlice(b, [lo |-> k, hi |-> n, st |-> 1]) = b
Slices(n) == <<[lo |-> 0, hi |-> n, st |-> 1], [lo |-> 1, hi |-> n, st |-> 2], [lo |-> 0 - 1, hi |-> n, st |-> 1], [lo |-> 0 - n - 1, hi |-> 0 - 1, st |-> 1], [lo |-> n, hi |-> n + 3, st |-> 1]>>
Look(h) == <<Act("bx_obs", [h |-> h, slices |-> Slices(Len(heap[h]))]), Act("bx_eq", [h |-> h, form |-> "handle", h2 |-> 3 - h, b |-> <<>>]),
             Act("bx_eq", [h |-> h, form |-> FormOf(Len(heap[h])), h2 |-> 1, b |-> heap[3 - h]]),
             Act("bx_find", [h |-> h, form |-> "handle", h2 |-> 3 - h, b |-> <<>>])>>
            \o (LET ss == SetToSeq({x \in Subs(heap[3 - h]) : Len(x) <= 2} \cup {<<65, 0>>}) IN
                Tup([i \in 1..Len(ss) |-> Act("bx_find", [h |-> h, form |-> FormOf(i), h2 |-> 1, b |-> ss[i]])]))
EmitAll == Len(hist) = 2 + Steps => Session(<<Reset>> \o hist \o Look(1) \o Look(2))
=============================================================================
