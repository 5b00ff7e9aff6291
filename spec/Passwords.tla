----------------------------- MODULE Passwords -----------------------------
(***************************************************************************)
(* Stored passwords and their verification.                                *)
(*                                                                         *)
(* A stored value [scheme, form, of, cut]:                                 *)
(*   scheme  "clear", "argon2", "ssha", "crypt", "des", "other"            *)
(*           ("other": a scheme that is not supported)                     *)
(*   form    "intact"   a hash of the password `of'                        *)
(*           "damaged"  such a hash, truncated or altered                  *)
(*           "junk"     never was a hash of anything                       *)
(*   cut     the part of the password that counts where not all of it      *)
(*           does (DES hashes)                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Supported == {"clear", "argon2", "ssha", "crypt", "des"}

\* Does the password p (with its part pcut) verify?
Verifies(s, p, pcut) ==
    /\ s.scheme \in Supported
    /\ s.form = "intact"
    /\ IF s.scheme = "des" THEN s.cut = pcut ELSE s.of = p

\* A damaged value may still be read as a hash of its password if that is what it
\* is by the definition of its scheme (same: an independent verifier says so).
MayVerify(s, p, pcut, same) ==
    \/ Verifies(s, p, pcut)
    \/ s.form = "damaged" /\ same /\ s.scheme \in Supported

WrongTry(s, p, pcut, same, accepted) ==
    (IF accepted /\ ~MayVerify(s, p, pcut, same) THEN {"accepted"} ELSE {})
    \cup (IF ~accepted /\ Verifies(s, p, pcut) THEN {"rejected"} ELSE {})
=============================================================================
