---------------------------- MODULE MCPasswords ----------------------------
(***************************************************************************)
(* Verification as it is done: find the scheme, make the hash again with   *)
(* the stored salt, compare.  All short passwords over an alphabet of      *)
(* letters of both cases, blank, NUL, percent sign, brace.                 *)
(***************************************************************************)
EXTENDS Passwords, TLC, Json

CONSTANTS Fault, MaxLen

VARIABLES stored, tried

Chars == {"a", "A", " ", "0", "%", "{"}
Pws == UNION { [1..n -> Chars] : n \in 1..MaxLen }

\* Hashes are terms: a scheme, a salt, the password (what the hash depends on).
Salts == {1, 2}
Schemes == {"clear", "argon2", "ssha", "crypt", "des", "other"}
DesLen == 2

NoNul(p) == \A i \in DOMAIN p : p[i] # "0"
Cut(p) == IF Len(p) <= DesLen \/ ~NoNul(p) THEN p ELSE SubSeq(p, 1, DesLen)

Hash(scheme, salt, p) ==
    CASE scheme = "clear" -> <<"clear", 0, p>>
      [] scheme = "des" -> <<"des", salt, Cut(p)>>
      [] OTHER -> <<scheme, salt, p>>

\* The hash function of the C library ends at a NUL, so such passwords have no hash there.
Storable(scheme, p) == scheme \in {"crypt", "des"} => NoNul(p)

UptoNul(p) == IF NoNul(p) THEN p
              ELSE SubSeq(p, 1, (CHOOSE i \in DOMAIN p : p[i] = "0" /\ \A j \in 1..(i - 1) : p[j] # "0") - 1)

Fold(p) == [i \in DOMAIN p |-> IF p[i] = "A" THEN "a" ELSE p[i]]
RECURSIVE Trim(_)
Trim(p) == IF p # << >> /\ Head(p) = " " THEN Trim(Tail(p)) ELSE p

Common(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN SubSeq(a, 1, n) = SubSeq(b, 1, n)

\* The verification.
Verify(s, p) ==
    LET q == CASE Fault = "trim" -> Trim(p)
               [] Fault = "nul" /\ s.scheme \in {"crypt", "des"} -> UptoNul(p)
               [] OTHER -> p
        h == Hash(s.scheme, s.salt, q)
        t == IF s.form = "intact" THEN s.hash ELSE <<"damaged", 0, SubSeq(s.hash[3], 1, Len(s.hash[3]) - 1)>>
    IN  CASE s.scheme = "other" -> (IF Fault = "scheme" THEN s.hash[3] = q ELSE FALSE)
          [] s.scheme \in {"crypt", "des"} /\ ~NoNul(q) -> FALSE
          [] Fault = "fold" -> Fold(h[3]) = Fold(t[3]) /\ t[1] = h[1]
          [] Fault = "prefix" -> Common(h[3], t[3])
          [] OTHER -> h = t

Init == /\ \E c \in Schemes, n \in Salts, p \in Pws, f \in {"intact", "damaged"} :
              /\ Storable(c, p)
              /\ stored = [scheme |-> c, salt |-> n, form |-> f, of |-> p, cut |-> Cut(p), hash |-> Hash(c, n, p)]
        /\ tried = << >>
Next == tried = << >> /\ UNCHANGED stored /\ \E p \in Pws : tried' = p
Spec == Init /\ [][Next]_<<stored, tried>>

Right == tried # << >> => WrongTry(stored, tried, Cut(tried), FALSE, Verify(stored, tried)) = {}

\* Two hashes of one password with different salts differ.
Salted == \A p \in Pws : \A c \in Schemes \ {"clear"} : Hash(c, 1, p) # Hash(c, 2, p)

RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN << >> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o SetToSeq(s \ {x})
ASSUME Fault # "none" \/ PrintT("WALK " \o ToJson([chars |-> SetToSeq(Chars), len |-> MaxLen, schemes |-> SetToSeq(Schemes \ {"other"})]))
=============================================================================
