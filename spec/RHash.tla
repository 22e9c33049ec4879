------------------------------- MODULE RHash -------------------------------
(* Hash primitives over Seq(0..255), bound to java/RHash.java by TLC's module
   override.  The definitions below are only a signature: if the override is
   not on the class path TLC stops with an error instead of inventing values. *)
EXTENDS TLC
SHA256(b)            == Assert(FALSE, "RHash override missing")
RIPEMD160(b)         == Assert(FALSE, "RHash override missing")
BLAKE256(b)          == Assert(FALSE, "RHash override missing")
BLAKE2b(b, n, pers)  == Assert(FALSE, "RHash override missing")
BLAKE2s(b, n, pers)  == Assert(FALSE, "RHash override missing")
\* BLAKE2 under any parameter block: of 64 bytes for BLAKE2b, of 32 for BLAKE2s (Blake!B2Def is the definition; MCHash checks the two agree)
BLAKE2P(b, p, last)  == Assert(FALSE, "RHash override missing")
\* digits in base `from` -> digits in base `to`, big end first, no leading zeros
\* (Address!RebaseDef is the definition in TLA+; MCCodec checks the two agree)
\* one BLAKE compression (Blake!CompressDef is the definition; MCBlake checks the two agree)
BLAKEC(size, h, salt, block, t, sigma, cc) == Assert(FALSE, "RHash override missing")
REBASE(s, from, to)  == Assert(FALSE, "RHash override missing")
=============================================================================
