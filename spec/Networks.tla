------------------------------ MODULE Networks ------------------------------
EXTENDS Bytes
(* The 72 supported networks.  p2pkh, p2sh: address version bytes; hrp: bech32
   human-readable part (<<>> = none); segenc: encoder of witness addresses;
   ca: cash-address prefix (<<>> = none); fork: fork id (-1 = none). *)
Row(p2pkh, p2sh, segwit, hrp, segenc, ca, fork) ==
  [p2pkh |-> p2pkh, p2sh |-> p2sh, segwit |-> segwit, hrp |-> hrp,
   segenc |-> segenc, ca |-> ca, fork |-> fork]
NetTable ==
  "bitcoin_main" :> Row(<<0>>, <<5>>, TRUE, <<98, 99>>, "bech32", <<>>, 0 - 1) @@
  "bitcoin_test" :> Row(<<111>>, <<196>>, TRUE, <<116, 98>>, "bech32", <<>>, 0 - 1) @@
  "bitcoin_reg" :> Row(<<111>>, <<196>>, TRUE, <<98, 99, 114, 116>>, "bech32", <<>>, 0 - 1) @@
  "litecoin_main" :> Row(<<48>>, <<50>>, TRUE, <<108, 116, 99>>, "bech32", <<>>, 0 - 1) @@
  "litecoin_test" :> Row(<<111>>, <<58>>, TRUE, <<116, 108, 116, 99>>, "bech32", <<>>, 0 - 1) @@
  "litecoin_reg" :> Row(<<111>>, <<58>>, TRUE, <<116, 108, 116, 99>>, "bech32", <<>>, 0 - 1) @@
  "bitcoin_cash_main" :> Row(<<0>>, <<5>>, FALSE, <<>>, "bech32", <<98, 105, 116, 99, 111, 105, 110, 99, 97, 115, 104>>, 0) @@
  "bitcoin_cash_test" :> Row(<<111>>, <<196>>, FALSE, <<>>, "bech32", <<98, 99, 104, 116, 101, 115, 116>>, 0) @@
  "bitcoin_cash_reg" :> Row(<<111>>, <<196>>, FALSE, <<>>, "bech32", <<98, 99, 104, 116, 101, 115, 116>>, 0) @@
  "bitcoin_gold_main" :> Row(<<38>>, <<23>>, TRUE, <<98, 116, 103>>, "bech32", <<>>, 79) @@
  "bitcoin_gold_test" :> Row(<<111>>, <<196>>, TRUE, <<116, 98, 116, 103>>, "bech32", <<>>, 79) @@
  "bitcoin_gold_reg" :> Row(<<111>>, <<196>>, TRUE, <<116, 98, 116, 103>>, "bech32", <<>>, 79) @@
  "dogecoin_main" :> Row(<<30>>, <<22>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "dogecoin_test" :> Row(<<113>>, <<196>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "dogecoin_reg" :> Row(<<113>>, <<196>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "dash_main" :> Row(<<76>>, <<16>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "dash_test" :> Row(<<140>>, <<19>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "dash_reg" :> Row(<<140>>, <<19>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "zcash_sprout_main" :> Row(<<28, 184>>, <<28, 189>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "zcash_sprout_test" :> Row(<<29, 37>>, <<28, 186>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "zcash_sprout_reg" :> Row(<<29, 37>>, <<28, 186>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "zcash_overwinter_main" :> Row(<<28, 184>>, <<28, 189>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "zcash_overwinter_test" :> Row(<<29, 37>>, <<28, 186>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "zcash_overwinter_reg" :> Row(<<29, 37>>, <<28, 186>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "zcash_sapling_main" :> Row(<<28, 184>>, <<28, 189>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "zcash_sapling_test" :> Row(<<29, 37>>, <<28, 186>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "zcash_sapling_reg" :> Row(<<29, 37>>, <<28, 186>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "decred_main" :> Row(<<7, 63>>, <<7, 26>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "decred_test" :> Row(<<15, 33>>, <<14, 252>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "decred_simnet" :> Row(<<40, 247>>, <<14, 252>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "pivx_main" :> Row(<<30>>, <<13>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "pivx_test" :> Row(<<139>>, <<19>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "pivx_reg" :> Row(<<139>>, <<19>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "viacoin_main" :> Row(<<71>>, <<33>>, TRUE, <<118, 105, 97>>, "bech32", <<>>, 0 - 1) @@
  "viacoin_test" :> Row(<<127>>, <<196>>, TRUE, <<116, 118, 105, 97>>, "bech32", <<>>, 0 - 1) @@
  "viacoin_simnet" :> Row(<<111>>, <<196>>, TRUE, <<115, 118, 105, 97>>, "bech32", <<>>, 0 - 1) @@
  "feathercoin_main" :> Row(<<14>>, <<96>>, TRUE, <<102, 99>>, "bech32", <<>>, 0 - 1) @@
  "feathercoin_test" :> Row(<<111>>, <<196>>, TRUE, <<116, 102>>, "bech32", <<>>, 0 - 1) @@
  "feathercoin_reg" :> Row(<<111>>, <<196>>, TRUE, <<102, 99, 114, 116>>, "bech32", <<>>, 0 - 1) @@
  "bitcoin_dark_main" :> Row(<<60>>, <<85>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "bitcoin_dark_test" :> Row(<<111>>, <<196>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "bitcoin_dark_reg" :> Row(<<111>>, <<196>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "axe_main" :> Row(<<55>>, <<16>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "axe_test" :> Row(<<140>>, <<19>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "axe_reg" :> Row(<<140>>, <<19>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "bitcore_main" :> Row(<<0>>, <<50>>, TRUE, <<>>, "base58", <<>>, 0 - 1) @@
  "bitcore_test" :> Row(<<111>>, <<58>>, TRUE, <<>>, "base58", <<>>, 0 - 1) @@
  "bitcore_reg" :> Row(<<111>>, <<58>>, TRUE, <<>>, "base58", <<>>, 0 - 1) @@
  "digibyte_main" :> Row(<<30>>, <<63>>, TRUE, <<100, 103, 98>>, "bech32", <<>>, 0 - 1) @@
  "digibyte_test" :> Row(<<126>>, <<140>>, TRUE, <<100, 103, 98, 116>>, "bech32", <<>>, 0 - 1) @@
  "digibyte_reg" :> Row(<<126>>, <<140>>, TRUE, <<100, 103, 98, 114, 116>>, "bech32", <<>>, 0 - 1) @@
  "groestlcoin_main" :> Row(<<36>>, <<5>>, TRUE, <<103, 114, 115>>, "base58", <<>>, 0 - 1) @@
  "groestlcoin_test" :> Row(<<111>>, <<196>>, TRUE, <<116, 103, 114, 115>>, "base58", <<>>, 0 - 1) @@
  "groestlcoin_reg" :> Row(<<111>>, <<196>>, TRUE, <<103, 114, 115, 114, 116>>, "base58", <<>>, 0 - 1) @@
  "monacoin_main" :> Row(<<50>>, <<55>>, TRUE, <<>>, "base58", <<>>, 0 - 1) @@
  "monacoin_test" :> Row(<<111>>, <<196>>, TRUE, <<>>, "base58", <<>>, 0 - 1) @@
  "monacoin_reg" :> Row(<<111>>, <<196>>, TRUE, <<>>, "base58", <<>>, 0 - 1) @@
  "navcoin_main" :> Row(<<53>>, <<85>>, TRUE, <<>>, "base58", <<>>, 0 - 1) @@
  "navcoin_test" :> Row(<<54>>, <<86>>, TRUE, <<>>, "base58", <<>>, 0 - 1) @@
  "navcoin_reg" :> Row(<<20>>, <<96>>, TRUE, <<>>, "base58", <<>>, 0 - 1) @@
  "syscoin_main" :> Row(<<63>>, <<5>>, TRUE, <<>>, "base58", <<>>, 0 - 1) @@
  "syscoin_test" :> Row(<<65>>, <<196>>, TRUE, <<>>, "base58", <<>>, 0 - 1) @@
  "syscoin_reg" :> Row(<<65>>, <<196>>, TRUE, <<>>, "base58", <<>>, 0 - 1) @@
  "vertcoin_main" :> Row(<<71>>, <<5>>, TRUE, <<118, 116, 99>>, "bech32", <<>>, 0 - 1) @@
  "vertcoin_test" :> Row(<<74>>, <<196>>, TRUE, <<116, 118, 116, 99>>, "bech32", <<>>, 0 - 1) @@
  "vertcoin_reg" :> Row(<<111>>, <<196>>, TRUE, <<98, 99, 114, 116>>, "bech32", <<>>, 0 - 1) @@
  "bitcoin_private_main" :> Row(<<19, 37>>, <<19, 175>>, FALSE, <<>>, "bech32", <<>>, 42) @@
  "bitcoin_private_test" :> Row(<<25, 87>>, <<25, 224>>, FALSE, <<>>, "bech32", <<>>, 42) @@
  "bitcoin_private_reg" :> Row(<<25, 87>>, <<25, 224>>, FALSE, <<>>, "bech32", <<>>, 42) @@
  "verge_main" :> Row(<<30>>, <<33>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "verge_test" :> Row(<<115>>, <<198>>, FALSE, <<>>, "bech32", <<>>, 0 - 1) @@
  "verge_reg" :> Row(<<115>>, <<198>>, FALSE, <<>>, "bech32", <<>>, 0 - 1)
NetNames == DOMAIN NetTable
IsNet(n) == n \in NetNames
Net(n) == NetTable[n]

DecredNets     == {"decred_main", "decred_test", "decred_simnet"}
SproutNets     == {"zcash_sprout_main", "zcash_sprout_test", "zcash_sprout_reg"}
OverwinterNets == {"zcash_overwinter_main", "zcash_overwinter_test", "zcash_overwinter_reg"}
SaplingNets    == {"zcash_sapling_main", "zcash_sapling_test", "zcash_sapling_reg"}
ZcashNets      == SproutNets \cup OverwinterNets \cup SaplingNets
BitcoinNets    == NetNames \ (ZcashNets \cup DecredNets)
StrictCompact(n) == n \in OverwinterNets \cup SaplingNets
\* Which transaction format make_tx yields is decided by the family.
Family(n) == IF n \in DecredNets THEN "decred" ELSE IF n \in SproutNets THEN "sprout"
             ELSE IF n \in OverwinterNets THEN "overwinter"
             ELSE IF n \in SaplingNets THEN "sapling" ELSE "bitcoin"
SegwitFlag == <<0, 1>>
P2WPKH == <<0, 20>>
P2WSH  == <<0, 32>>
HasBech32(n)   == Net(n).hrp # <<>>
HasCashaddr(n) == Net(n).ca # <<>>
CaPkh == <<0>>
CaSh  == <<8>>
=============================================================================
