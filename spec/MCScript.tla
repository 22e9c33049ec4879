------------------------------- MODULE MCScript -------------------------------
(* Small-scope model of script text, script bytes and script sigs: a text grows token by
   token, a script byte by byte, a script sig piece by piece.                        *)
EXTENDS Wire, Emit
VARIABLES net, x
vars == <<net, x>>
M == IOEnv.MC_KIND      \* text bytes sig

\* ---- text: a sequence of tokens, each given by its characters
CodesOf(s) == Tup([i \in 1..Len(s) |-> CHOOSE c \in 48..95 : (c <= 57 \/ c = 95 \/ (c >= 65 /\ c <= 90)) /\ CharStr(c) = SubSeq(s, i, i)])
Names == {"OP_0", "OP_1", "OP_16", "OP_DUP", "OP_CHECKMULTISIG", "OP_CODESEPARATOR", "OP_SHA256", "OP_BLAKE256", "OP_PUSHDATA4", "OP_NONE"}
Datas == {<<0>>, <<1>>, <<81>>, <<171>>, Rep(172, 75), Rep(76, 76), Rep(3, 255), Rep(4, 256)}
         \cup (IF Deep THEN {<<76>>, <<77>>, Rep(0, 1000), Rep(0, 1001), Rep(255, 254), Rep(1, 257)} ELSE {})
Toks == {CodesOf(n) : n \in Names} \cup {ToHexText(b) : b \in Datas} \cup {<<48>>, <<48, 120>>}
\* ---- bytes
Alphabet == {0, 1, 2, 76, 77, 78, 79, 81, 97, 168, 171, 172, 192, 255} \cup (IF Deep THEN {3, 80, 96, 186} ELSE {})
Tail3 == {0, 1, 2, 81, 171}
\* ---- script sigs
Pieces == {<<0>>, <<81>>, <<97>>, <<1, 81>>, <<2, 81, 172>>, <<1, 76>>, <<1, 171>>, <<76, 1, 81>>, <<77, 1, 0, 81>>, <<172>>, <<3, 1, 81>>, <<2, 1, 81>>}
          \cup {Push(Rep(81, 75)), Push(Rep(81, 76)), Push(Rep(81, 256))}
Ops == {NullOutpoint, Rep(7, 32) \o <<255, 255, 255, 255>>, Zeros(36)}
MaxSize == CASE M = "text" -> IF Deep THEN 3 ELSE 2 [] M = "bytes" -> IF Deep THEN 4 ELSE 3 [] OTHER -> 3
Init == /\ net \in IF M = "sig" THEN {"bitcoin_main"} ELSE {"bitcoin_main", "decred_main"}
        /\ x \in IF M = "sig" THEN {[op |-> o, ps |-> <<>>] : o \in Ops} ELSE {<<>>}
Size == IF M = "sig" THEN Len(x.ps) ELSE Len(x)
Next == /\ Size < MaxSize /\ UNCHANGED net
        /\ CASE M = "text" -> \E t \in Toks : (Len(x) < 2 \/ Len(t) <= 20) /\ x' = Append(x, t)
             [] M = "bytes" -> \E v \in IF Len(x) < 3 THEN Alphabet ELSE Tail3 : x' = Append(x, v)
             [] OTHER -> \E p \in Pieces : (Len(x.ps) < 2 \/ Deep \/ (x.op = Zeros(36) /\ Len(p) < 4)) /\ x' = [x EXCEPT !.ps = Append(@, p)]
Spec == Init /\ [][Next]_vars

\* ---- text -> bytes -> text
Classes == Tup([i \in 1..Len(x) |-> ClassTok(net, x[i])])
PushOp(k) == k.t = "op" /\ OpByte(net, k.s) \in 1..78
TextExact == M = "text" => LET s == SerText(net, x) IN
  /\ s.ok <=> \A i \in 1..Len(x) : SerText(net, <<x[i]>>).ok
  /\ s.ok => /\ s.v = Cat(Tup([i \in 1..Len(x) |-> SerText(net, <<x[i]>>).v]))
             /\ (\A i \in 1..Len(x) : ~PushOp(Classes[i])) => Deser(net, s.v) = Good(Classes)
\* ---- bytes -> text -> bytes
BytesExact == M = "bytes" => LET d == Deser(net, x) IN d.ok =>
  LET s == SerToks(net, d.v) IN s.ok /\ Len(s.v) <= Len(x) /\ LET e == Deser(net, s.v) IN
    e.ok /\ Len(e.v) = Len(d.v) /\ \A i \in 1..Len(d.v) : e.v[i] = d.v[i] \/ (d.v[i] = DataTok(<<>>) /\ e.v[i] = OpTok("OP_0"))
\* reading is deterministic and local: a readable script followed by a readable script reads as both
Local == M = "bytes" => \A n \in 0..Len(x) : LET p == Deser(net, Take(x, n)) q == Deser(net, Drop(x, n)) IN
  p.ok /\ q.ok => Deser(net, x) = Good(p.v \o q.v)
\* ---- script sigs
Sig == Cat(x.ps)
SplitExact == M = "sig" => LET s == SplitScriptSig(net, x.op, Sig) IN
  /\ s.stack \o s.redeem = Sig
  /\ (s.redeem # <<>> => /\ x.op # NullOutpoint
                         /\ LET d == Deser(net, s.redeem) IN d.ok /\ Len(d.v) = 1 /\ d.v[1].t = "data" /\ Push(d.v[1].b) = s.redeem)
Acts == CASE M = "text" -> <<Act("ser", [toks |-> x, hex |-> (Len(x) % 2 = 0)])>> \o
                           LET s == SerText(net, x) IN IF s.ok THEN <<Act("deser", [b |-> s.v, hex |-> (Len(x) % 2 = 0)])>> ELSE <<>>
          [] M = "bytes" -> <<Act("deser", [b |-> x, hex |-> (Len(x) % 2 = 1)])>>
          [] OTHER -> <<Act("parse", [k |-> "txin", b |-> x.op \o VarBytes(Sig) \o <<1, 2, 3, 4>>, form |-> IF Len(x.ps) % 2 = 0 THEN "hex" ELSE "bytes"])>>
EmitAll == Size > 0 => Session(<<Reset, Use(net)>> \o Acts)
=============================================================================
