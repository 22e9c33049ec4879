------------------------------- MODULE MCAddr -------------------------------
(* Small-scope model of addresses across all networks: every kind of address of every
   network (or the one a constructor makes from a key or script) is written down, then
   read on its own network and on others.                                           *)
EXTENDS Address, Emit
VARIABLES net, src, t, reader
vars == <<net, src, t, reader>>
A == IOEnv.MC_KIND       \* scripts | makers
Fill(i, len) == Tup([j \in 1..len |-> (29 * j + 101 * i) % 256])
Kinds == {"pkh", "sh", "wpkh", "wsh"}
HLen(k) == IF k = "wsh" THEN 32 ELSE 20
Hashes(k) == {Fill(1, HLen(k))} \cup (IF Deep THEN {Zeros(HLen(k)), Rep(255, HLen(k)), <<0>> \o Fill(2, HLen(k) - 1)} ELSE {})
CodesOf(s) == Tup([i \in 1..Len(s) |-> CHOOSE c \in 48..95 : (c <= 57 \/ c = 95 \/ (c >= 65 /\ c <= 90)) /\ CharStr(c) = SubSeq(s, i, i)])
Op(s) == CodesOf(s)
Texts == {<<Op("OP_1"), Op("OP_DUP")>>, <<ToHexText(Fill(4, 80)), Op("OP_CHECKSIG")>>}
         \cup (IF Deep THEN {<<Op("OP_CODESEPARATOR")>>, <<Op("OP_SHA256"), Op("OP_BLAKE256")>>, <<Op("OP_0")>>, <<ToHexText(Fill(5, 300))>>} ELSE {})
Pubs == {<<2>> \o Fill(3, 32)} \cup (IF Deep THEN {<<4>> \o Fill(3, 64), <<>>, Zeros(33)} ELSE {})
NoSrc == [mk |-> "none", kind |-> "none", h |-> <<>>, cash |-> FALSE, wit |-> FALSE, toks |-> <<>>, pub |-> <<>>]
Srcs == IF A = "scripts" THEN UNION {{[NoSrc EXCEPT !.mk = "script", !.kind = k, !.h = h, !.cash = c] : h \in Hashes(k), c \in BOOLEAN} : k \in Kinds}
        ELSE {[NoSrc EXCEPT !.mk = "sh", !.toks = x, !.wit = w, !.cash = c] : x \in Texts, w \in BOOLEAN, c \in BOOLEAN}
             \cup {[NoSrc EXCEPT !.mk = "pkh", !.pub = p, !.wit = w, !.cash = c] : p \in Pubs, w \in BOOLEAN, c \in BOOLEAN}
AddrFor(n, s) == CASE s.mk = "script" -> FromScript(n, ScriptOf(s.kind, s.h), s.cash)
                   [] s.mk = "sh" -> MakeSh(n, s.toks, s.wit, s.cash) [] OTHER -> MakePkh(n, s.pub, s.wit, s.cash)
Readers == IF Deep THEN NetNames
           ELSE {"bitcoin_main", "bitcoin_test", "litecoin_main", "bitcoin_cash_main", "bitcoin_cash_test", "zcash_sapling_test", "decred_main",
                 "decred_test", "bitcore_main", "groestlcoin_test", "bitcoin_private_main", "vertcoin_reg", "dogecoin_main"}
Init == /\ net \in NetNames /\ src \in Srcs /\ reader = net
        /\ LET x == AddrFor(net, src) IN t = IF x.ok THEN x.v ELSE <<>>
Carry == /\ reader = net /\ t # <<>> /\ (Deep \/ A = "scripts") /\ reader' \in Readers \ {net} /\ UNCHANGED <<net, src, t>>
Next == Carry
Spec == Init /\ [][Next]_vars

Own == reader = net /\ t # <<>>
KindOf == CASE src.mk = "script" -> src.kind [] src.mk = "sh" -> IF src.wit THEN "wsh" ELSE "sh" [] OTHER -> IF src.wit THEN "wpkh" ELSE "pkh"
HashOf == CASE src.mk = "script" -> src.h [] src.mk = "sh" -> ShHash(net, SerText(net, src.toks).v, src.wit) [] OTHER -> KeyHash(net, src.pub)
\* an address stands for one script, and says which
Decodes == Own => ToScript(net, t) = [st |-> "yes", v |-> ScriptOf(KindOf, HashOf)]
Commits == Own => ParseHash(net, t) = [st |-> "yes", v |-> HashOf]
Writes == Own => LET s == ToScript(net, t).v IN \E c \in BOOLEAN : FromScript(net, s, c) = Good(t)
Missing == reader = net /\ t = <<>> => (KindOf \in {"wpkh", "wsh"} /\ ~Net(net).segwit) \/ (src.mk = "sh" /\ ~SerText(net, src.toks).ok)
\* read elsewhere: refused, or the same hash under a kind the reader writes exactly this way
Elsewhere == reader # net => LET m == Meaning(reader, t) IN
  m.st = "yes" => /\ m.h = HashOf
                  /\ \E c \in BOOLEAN : AddrOf(reader, m.kind, m.h, c) = Good(t)
\* two kinds never share a text
Apart == Own => \A k \in Kinds \ {KindOf} : \A c \in BOOLEAN : LET x == AddrOf(net, k, HashOf, c) IN
           (Len(HashOf) = HLen(k) /\ x.ok) => x.v # t
Make == CASE src.mk = "script" -> <<Act("addr", [f |-> "from_script", b |-> ScriptOf(src.kind, src.h), cash |-> src.cash, dflt |-> FALSE])>>
          [] src.mk = "sh" -> <<Act("addr", [f |-> "sh", toks |-> src.toks, wit |-> src.wit, cash |-> src.cash])>>
                              \o (IF src.wit THEN IF src.cash THEN <<>> ELSE <<Act("addr", [f |-> "p2wsh", toks |-> src.toks])>>
                                  ELSE <<Act("addr", [f |-> IF src.cash THEN "p2sh" ELSE "legacy_p2sh", toks |-> src.toks])>>)
          [] OTHER -> <<Act("addr", [f |-> "pkh", pub |-> src.pub, wit |-> src.wit, cash |-> src.cash])>>
                      \o (IF src.wit THEN IF src.cash THEN <<>> ELSE <<Act("addr", [f |-> "p2wpkh", pub |-> src.pub])>>
                          ELSE <<Act("addr", [f |-> IF src.cash THEN "p2pkh" ELSE "legacy_p2pkh", pub |-> src.pub])>>)
Read == <<Act("addr", [f |-> "to_script", t |-> t]), Act("addr", [f |-> "parse_hash", t |-> t])>>
EmitAll == Session(<<Reset, Use(reader)>> \o (IF reader = net THEN Make ELSE <<>>) \o (IF t # <<>> THEN Read ELSE <<>>))
=============================================================================
