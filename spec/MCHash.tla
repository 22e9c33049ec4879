------------------------------- MODULE MCHash -------------------------------
(* Small-scope model of the hash helpers: which hash a helper computes on which network,
   over messages around the block boundaries.                                          *)
EXTENDS Samples, Api, Emit
VARIABLES net, len
vars == <<net, len>>
Lens == {0, 1, 33, 55, 56, 64} \cup (IF Deep THEN {20, 32, 63, 65, 111, 112, 119, 120, 127, 128, 129, 256} ELSE {})
Nets == IF Deep THEN NetNames ELSE DecredNets \cup {"bitcoin_main", "zcash_sapling_main", "groestlcoin_main", "verge_main", "bitcoin_cash_test", "bitcore_reg"}
Init == net \in Nets /\ len \in Lens
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
M == Pat(1, 2, len)
Decreds == /\ (net \in DecredNets) = (Hash160(net, M) = RIPEMD160(BLAKE256(M)))
           /\ (net \notin DecredNets) = (Hash160(net, M) = RIPEMD160(SHA256(M)))
           /\ (net \in DecredNets) = (Hash256(net, M) = BLAKE256(BLAKE256(M)))
           /\ (net \notin DecredNets) = (Hash256(net, M) = SHA256(SHA256(M)))
\* the accelerated BLAKE-256 is the one written out in Blake.tla
Written == BLAKE256(M) = Blake(256, <<>>, M)
\* ... and so are BLAKE2b and BLAKE2s, plain and with every parameter at work
P2(bits, i) ==
  LET d == B2Plain(bits) m == B2Max(bits) IN
  CASE i = 0 -> d
    [] i = 1 -> [d EXCEPT !.digest = 1 + (len % m), !.person = Pat(3, 3, (bits \div 4) - (len % 3))]
    [] i = 2 -> [d EXCEPT !.key = Pat(5, 1, 1 + (len % m)), !.salt = Pat(7, 2, bits \div 4)]
    [] i = 3 -> [d EXCEPT !.fanout = 0, !.depth = 255, !.leaf = <<1, 2, 3, 255>>, !.noff = Pat(9, 1, Len(d.noff)), !.ndepth = 1, !.inner = m, !.last = TRUE]
    [] i = 4 -> [d EXCEPT !.fanout = 2, !.depth = 2, !.ndepth = 1, !.inner = 32, !.key = Pat(1, 1, m), !.last = len % 2 = 0]
Given2(bits, i) == LET p == P2(bits, i) d == B2Plain(bits) IN
  SelectSeq(<<"digest", "key", "fanout", "depth", "leaf", "noff", "ndepth", "inner", "salt", "person", "last">>, LAMBDA x : p[x] # d[x] \/ x = "fanout")
Written2 == \A bits \in {32, 64} : \A i \in 0..4 :
  /\ Blake2(bits, P2(bits, i), M) = Blake2Def(bits, P2(bits, i), M)
  /\ B2Valid(bits, P2(bits, i))
Plain2 == /\ BLAKE2b(M, 32, Pat(3, 3, 16)) = Blake2Def(64, [B2Plain(64) EXCEPT !.digest = 32, !.person = Pat(3, 3, 16)], M)
          /\ BLAKE2s(M, 32, Pat(3, 3, 8)) = Blake2Def(32, [B2Plain(32) EXCEPT !.person = Pat(3, 3, 8)], M)
HB(bits, i) == Act("hash", [f |-> IF bits = 64 THEN "blake2b_all" ELSE "blake2s_all", b |-> M, give |-> Given2(bits, i), p |-> P2(bits, i)])
H(f, s, p) == Act("hash", [f |-> f, b |-> M, size |-> s, person |-> p])
EmitAll == Session(<<Reset, Use(net), H("sha256", <<>>, <<>>), H("rmd160", <<>>, <<>>), H("hash160", <<>>, <<>>), H("hash256", <<>>, <<>>), H("blake256", <<>>, <<>>),
   H("blake2b", <<1 + (len % 64)>>, <<Pat(3, 3, len % 17)>>), H("blake2s", <<1 + (len % 32)>>, <<Pat(3, 3, len % 9)>>), H("blake2b", <<>>, <<>>), H("blake2s", <<>>, <<>>)>>
   \o Tup([i \in 1..10 |-> HB(IF i > 5 THEN 64 ELSE 32, (i - 1) % 5)]))
=============================================================================
