------------------------------- MODULE Script -------------------------------
(* Script text (opcode names and hex data items) <-> script bytes. *)
EXTENDS CompactSize, Networks

CodeToInt ==
  "OP_0" :> 0 @@
  "OP_PUSHDATA1" :> 76 @@
  "OP_PUSHDATA2" :> 77 @@
  "OP_PUSHDATA4" :> 78 @@
  "OP_1NEGATE" :> 79 @@
  "OP_RESERVED" :> 80 @@
  "OP_1" :> 81 @@
  "OP_2" :> 82 @@
  "OP_3" :> 83 @@
  "OP_4" :> 84 @@
  "OP_5" :> 85 @@
  "OP_6" :> 86 @@
  "OP_7" :> 87 @@
  "OP_8" :> 88 @@
  "OP_9" :> 89 @@
  "OP_10" :> 90 @@
  "OP_11" :> 91 @@
  "OP_12" :> 92 @@
  "OP_13" :> 93 @@
  "OP_14" :> 94 @@
  "OP_15" :> 95 @@
  "OP_16" :> 96 @@
  "OP_NOP" :> 97 @@
  "OP_VER" :> 98 @@
  "OP_IF" :> 99 @@
  "OP_NOTIF" :> 100 @@
  "OP_VERIF" :> 101 @@
  "OP_VERNOTIF" :> 102 @@
  "OP_ELSE" :> 103 @@
  "OP_ENDIF" :> 104 @@
  "OP_VERIFY" :> 105 @@
  "OP_RETURN" :> 106 @@
  "OP_TOALTSTACK" :> 107 @@
  "OP_FROMALTSTACK" :> 108 @@
  "OP_2DROP" :> 109 @@
  "OP_2DUP" :> 110 @@
  "OP_3DUP" :> 111 @@
  "OP_2OVER" :> 112 @@
  "OP_2ROT" :> 113 @@
  "OP_2SWAP" :> 114 @@
  "OP_IFDUP" :> 115 @@
  "OP_DEPTH" :> 116 @@
  "OP_DROP" :> 117 @@
  "OP_DUP" :> 118 @@
  "OP_NIP" :> 119 @@
  "OP_OVER" :> 120 @@
  "OP_PICK" :> 121 @@
  "OP_ROLL" :> 122 @@
  "OP_ROT" :> 123 @@
  "OP_SWAP" :> 124 @@
  "OP_TUCK" :> 125 @@
  "OP_CAT" :> 126 @@
  "OP_SUBSTR" :> 127 @@
  "OP_LEFT" :> 128 @@
  "OP_RIGHT" :> 129 @@
  "OP_SIZE" :> 130 @@
  "OP_INVERT" :> 131 @@
  "OP_AND" :> 132 @@
  "OP_OR" :> 133 @@
  "OP_XOR" :> 134 @@
  "OP_EQUAL" :> 135 @@
  "OP_EQUALVERIFY" :> 136 @@
  "OP_RESERVED1" :> 137 @@
  "OP_RESERVED2" :> 138 @@
  "OP_1ADD" :> 139 @@
  "OP_1SUB" :> 140 @@
  "OP_2MUL" :> 141 @@
  "OP_2DIV" :> 142 @@
  "OP_NEGATE" :> 143 @@
  "OP_ABS" :> 144 @@
  "OP_NOT" :> 145 @@
  "OP_0NOTEQUAL" :> 146 @@
  "OP_ADD" :> 147 @@
  "OP_SUB" :> 148 @@
  "OP_MUL" :> 149 @@
  "OP_DIV" :> 150 @@
  "OP_MOD" :> 151 @@
  "OP_LSHIFT" :> 152 @@
  "OP_RSHIFT" :> 153 @@
  "OP_BOOLAND" :> 154 @@
  "OP_BOOLOR" :> 155 @@
  "OP_NUMEQUAL" :> 156 @@
  "OP_NUMEQUALVERIFY" :> 157 @@
  "OP_NUMNOTEQUAL" :> 158 @@
  "OP_LESSTHAN" :> 159 @@
  "OP_GREATERTHAN" :> 160 @@
  "OP_LESSTHANOREQUAL" :> 161 @@
  "OP_GREATERTHANOREQUAL" :> 162 @@
  "OP_MIN" :> 163 @@
  "OP_MAX" :> 164 @@
  "OP_WITHIN" :> 165 @@
  "OP_RIPEMD160" :> 166 @@
  "OP_SHA1" :> 167 @@
  "OP_SHA256" :> 168 @@
  "OP_HASH160" :> 169 @@
  "OP_HASH256" :> 170 @@
  "OP_CODESEPARATOR" :> 171 @@
  "OP_CHECKSIG" :> 172 @@
  "OP_CHECKSIGVERIFY" :> 173 @@
  "OP_CHECKMULTISIG" :> 174 @@
  "OP_CHECKMULTISIGVERIFY" :> 175 @@
  "OP_NOP1" :> 176 @@
  "OP_NOP2" :> 177 @@
  "OP_CHECKLOCKTIMEVERIFY" :> 177 @@
  "OP_NOP3" :> 178 @@
  "OP_CHECKSEQUENCEVERIFY" :> 178 @@
  "OP_NOP4" :> 179 @@
  "OP_NOP5" :> 180 @@
  "OP_NOP6" :> 181 @@
  "OP_NOP7" :> 182 @@
  "OP_NOP8" :> 183 @@
  "OP_NOP9" :> 184 @@
  "OP_NOP10" :> 185 @@
  "OP_INVALIDOPCODE" :> 255
  @@ [n \in {"OP_PUSH_" \o ToString(k) : k \in 1..75} |-> CHOOSE k \in 1..75 : n = "OP_PUSH_" \o ToString(k)]
ByteToName ==
  0 :> "OP_0" @@
  76 :> "OP_PUSHDATA1" @@
  77 :> "OP_PUSHDATA2" @@
  78 :> "OP_PUSHDATA4" @@
  79 :> "OP_1NEGATE" @@
  80 :> "OP_RESERVED" @@
  81 :> "OP_1" @@
  82 :> "OP_2" @@
  83 :> "OP_3" @@
  84 :> "OP_4" @@
  85 :> "OP_5" @@
  86 :> "OP_6" @@
  87 :> "OP_7" @@
  88 :> "OP_8" @@
  89 :> "OP_9" @@
  90 :> "OP_10" @@
  91 :> "OP_11" @@
  92 :> "OP_12" @@
  93 :> "OP_13" @@
  94 :> "OP_14" @@
  95 :> "OP_15" @@
  96 :> "OP_16" @@
  97 :> "OP_NOP" @@
  98 :> "OP_VER" @@
  99 :> "OP_IF" @@
  100 :> "OP_NOTIF" @@
  101 :> "OP_VERIF" @@
  102 :> "OP_VERNOTIF" @@
  103 :> "OP_ELSE" @@
  104 :> "OP_ENDIF" @@
  105 :> "OP_VERIFY" @@
  106 :> "OP_RETURN" @@
  107 :> "OP_TOALTSTACK" @@
  108 :> "OP_FROMALTSTACK" @@
  109 :> "OP_2DROP" @@
  110 :> "OP_2DUP" @@
  111 :> "OP_3DUP" @@
  112 :> "OP_2OVER" @@
  113 :> "OP_2ROT" @@
  114 :> "OP_2SWAP" @@
  115 :> "OP_IFDUP" @@
  116 :> "OP_DEPTH" @@
  117 :> "OP_DROP" @@
  118 :> "OP_DUP" @@
  119 :> "OP_NIP" @@
  120 :> "OP_OVER" @@
  121 :> "OP_PICK" @@
  122 :> "OP_ROLL" @@
  123 :> "OP_ROT" @@
  124 :> "OP_SWAP" @@
  125 :> "OP_TUCK" @@
  126 :> "OP_CAT" @@
  127 :> "OP_SUBSTR" @@
  128 :> "OP_LEFT" @@
  129 :> "OP_RIGHT" @@
  130 :> "OP_SIZE" @@
  131 :> "OP_INVERT" @@
  132 :> "OP_AND" @@
  133 :> "OP_OR" @@
  134 :> "OP_XOR" @@
  135 :> "OP_EQUAL" @@
  136 :> "OP_EQUALVERIFY" @@
  137 :> "OP_RESERVED1" @@
  138 :> "OP_RESERVED2" @@
  139 :> "OP_1ADD" @@
  140 :> "OP_1SUB" @@
  141 :> "OP_2MUL" @@
  142 :> "OP_2DIV" @@
  143 :> "OP_NEGATE" @@
  144 :> "OP_ABS" @@
  145 :> "OP_NOT" @@
  146 :> "OP_0NOTEQUAL" @@
  147 :> "OP_ADD" @@
  148 :> "OP_SUB" @@
  149 :> "OP_MUL" @@
  150 :> "OP_DIV" @@
  151 :> "OP_MOD" @@
  152 :> "OP_LSHIFT" @@
  153 :> "OP_RSHIFT" @@
  154 :> "OP_BOOLAND" @@
  155 :> "OP_BOOLOR" @@
  156 :> "OP_NUMEQUAL" @@
  157 :> "OP_NUMEQUALVERIFY" @@
  158 :> "OP_NUMNOTEQUAL" @@
  159 :> "OP_LESSTHAN" @@
  160 :> "OP_GREATERTHAN" @@
  161 :> "OP_LESSTHANOREQUAL" @@
  162 :> "OP_GREATERTHANOREQUAL" @@
  163 :> "OP_MIN" @@
  164 :> "OP_MAX" @@
  165 :> "OP_WITHIN" @@
  166 :> "OP_RIPEMD160" @@
  167 :> "OP_SHA1" @@
  168 :> "OP_SHA256" @@
  169 :> "OP_HASH160" @@
  170 :> "OP_HASH256" @@
  171 :> "OP_CODESEPARATOR" @@
  172 :> "OP_CHECKSIG" @@
  173 :> "OP_CHECKSIGVERIFY" @@
  174 :> "OP_CHECKMULTISIG" @@
  175 :> "OP_CHECKMULTISIGVERIFY" @@
  176 :> "OP_NOP1" @@
  177 :> "OP_CHECKLOCKTIMEVERIFY" @@
  178 :> "OP_CHECKSEQUENCEVERIFY" @@
  179 :> "OP_NOP4" @@
  180 :> "OP_NOP5" @@
  181 :> "OP_NOP6" @@
  182 :> "OP_NOP7" @@
  183 :> "OP_NOP8" @@
  184 :> "OP_NOP9" @@
  185 :> "OP_NOP10" @@
  255 :> "OP_INVALIDOPCODE"

\* ---- network view of the opcode table -----------------------------------------
DecredOps == "OP_BLAKE256" :> 168 @@ "OP_SHA256" :> 192
OpByte(net, name) == IF net \in DecredNets /\ name \in DOMAIN DecredOps THEN DecredOps[name]
                     ELSE IF name \in DOMAIN CodeToInt THEN CodeToInt[name] ELSE 0 - 1
OpName(net, byte) == IF net \in DecredNets /\ byte = 168 THEN "OP_BLAKE256"
                     ELSE IF net \in DecredNets /\ byte = 192 THEN "OP_SHA256"
                     ELSE IF byte \in DOMAIN ByteToName THEN ByteToName[byte] ELSE ""
RefusedOps == {"OP_CODESEPARATOR", "OP_PUSHDATA4"}

\* ---- text of a token (character codes) to a TLA+ string ------------------------
PrintChar == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
DigitChar == <<"0","1","2","3","4","5","6","7","8","9">>
\* Only upper-case letters, digits and underscore occur in opcode names.
IsNameChar(c) == IsUpperC(c) \/ (c >= 48 /\ c <= 57) \/ c = 95
CharStr(c) == IF c = 95 THEN "_" ELSE IF c <= 57 THEN DigitChar[c - 47] ELSE PrintChar[c - 64]
StrOf(t) == FoldLeft(LAMBDA a, c : a \o CharStr(c), "", t)
TokName(t) == IF Len(t) >= 3 /\ Len(t) <= 30 /\ t[1] = 79 /\ t[2] = 80 /\ t[3] = 95 /\ \A i \in 1..Len(t) : IsNameChar(t[i])
              THEN StrOf(t) ELSE ""

OpTok(s)   == [t |-> "op", s |-> s, b |-> <<>>]
DataTok(b) == [t |-> "data", s |-> "", b |-> b]

\* Shortest length-prefixed push the library uses.
MAXPUSH == 1000
Push(b) == IF Len(b) <= 75 THEN <<Len(b)>> \o b
           ELSE IF Len(b) <= 255 THEN <<76, Len(b)>> \o b
           ELSE <<77>> \o LE(Len(b), 2) \o b

Bad == [ok |-> FALSE, v |-> <<>>]
Good(v) == [ok |-> TRUE, v |-> v]

\* Token already classified (OpTok / DataTok).
SerTok(net, k) ==
  IF k.t = "op"
  THEN IF k.s \in RefusedOps \/ OpByte(net, k.s) < 0 THEN Bad ELSE Good(<<OpByte(net, k.s)>>)
  ELSE IF Len(k.b) > MAXPUSH THEN Bad ELSE Good(Push(k.b))
SerToks(net, ks) ==
  LET rs == Tup([i \in 1..Len(ks) |-> SerTok(net, ks[i])]) IN
  IF \E i \in 1..Len(rs) : ~rs[i].ok THEN Bad ELSE Good(CatMap(LAMBDA r : r.v, rs))

\* Tokens as text.  "none" = not a token of the language.
ClassTok(net, t) ==
  LET n == TokName(t) IN
  IF n # "" /\ (n \in RefusedOps \/ OpByte(net, n) >= 0) THEN OpTok(n)
  ELSE IF IsHexText(t) THEN DataTok(FromHexText(t)) ELSE [t |-> "none", s |-> "", b |-> <<>>]
SerText(net, ts) ==
  LET ks == Tup([i \in 1..Len(ts) |-> ClassTok(net, ts[i])]) IN
  IF \E i \in 1..Len(ks) : ks[i].t = "none" THEN Bad ELSE SerToks(net, ks)

\* Bytes to tokens.
RECURSIVE DeserR(_, _, _, _)
DeserR(net, b, p, acc) ==
  IF p > Len(b) THEN Good(acc)
  ELSE LET c == b[p] IN
    IF c >= 1 /\ c <= 75 THEN
      IF p + c > Len(b) THEN Bad ELSE DeserR(net, b, p + 1 + c, Append(acc, DataTok(SubSeq(b, p + 1, p + c))))
    ELSE IF c = 76 THEN
      IF p + 1 > Len(b) THEN Bad
      ELSE LET n == b[p + 1] IN
           IF p + 1 + n > Len(b) THEN Bad ELSE DeserR(net, b, p + 2 + n, Append(acc, DataTok(SubSeq(b, p + 2, p + 1 + n))))
    ELSE IF c = 77 THEN
      IF p + 2 > Len(b) THEN Bad
      ELSE LET n == b[p + 1] + 256 * b[p + 2] IN
           IF p + 2 + n > Len(b) THEN Bad ELSE DeserR(net, b, p + 3 + n, Append(acc, DataTok(SubSeq(b, p + 3, p + 2 + n))))
    ELSE IF c = 78 \/ c = 171 \/ OpName(net, c) = "" THEN Bad
    ELSE DeserR(net, b, p + 1, Append(acc, OpTok(OpName(net, c))))
Deser(net, b) == DeserR(net, b, 1, <<>>)

\* ---- script sigs -----------------------------------------------------------------
NullOutpoint == Zeros(32) \o <<255, 255, 255, 255>>
SplitScriptSig(net, outpoint, sig) ==
  LET whole == [stack |-> sig, redeem |-> <<>>] IN
  IF sig = <<>> \/ outpoint = NullOutpoint THEN whole
  ELSE LET d == Deser(net, sig) IN
    IF ~d.ok THEN whole
    ELSE LET ks == d.v last == ks[Len(ks)] re == SerToks(net, ks) IN
      IF last.t # "data" \/ ~re.ok THEN whole
      ELSE IF re.v # sig \/ ~Deser(net, last.b).ok THEN whole
      ELSE LET r == Push(last.b) IN
           [stack |-> Take(sig, Len(sig) - Len(r)), redeem |-> r]
=============================================================================
