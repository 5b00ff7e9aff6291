---------------------------- MODULE LdapGrammar ----------------------------
(***************************************************************************)
(* The form of the requests that change the directory (RFC 4511), over     *)
(* trees of encoded elements.  A node is a record                          *)
(*    c  class (0 universal, 1 application, 2 context)                     *)
(*    t  tag number, p primitive, n length of the content                  *)
(*    k  the elements contained, in order (of a constructed element, and   *)
(*       of the body of an extended request, which is encoded in a string) *)
(* Elements following the expected ones are permitted (extensibility).     *)
(*                                                                         *)
(* The grammar is liberal where the meaning of a request stays clear: any  *)
(* string type is a string, any constructed element a list, a number or    *)
(* truth value without content is zero, the values of a change may be left *)
(* out, and the body of a password change may be empty.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Universal == 0
Application == 1
Context == 2

Str(x) == x.c = Universal /\ x.p /\ x.t \in {4, 12, 18, 19, 20, 22, 26, 27, 28, 30}
Int(x) == x.c = Universal /\ x.p /\ x.t = 2
Choice_(x) == x.p /\ x.n > 0
Bool(x) == x.c = Universal /\ x.p /\ x.t = 1
List(x) == ~x.p
Every(x, P(_)) == \A i \in DOMAIN x.k : P(x.k[i])

Attribute(x) == List(x) /\ Len(x.k) >= 2 /\ Str(x.k[1]) /\ List(x.k[2]) /\ Every(x.k[2], Str)
NoValues(x) == List(x) /\ Len(x.k) = 1 /\ Str(x.k[1])
Change(x) == List(x) /\ Len(x.k) >= 2 /\ Choice_(x.k[1]) /\ (Attribute(x.k[2]) \/ NoValues(x.k[2]))

AddRequest(x) == ~x.p /\ Len(x.k) >= 2 /\ Str(x.k[1]) /\ List(x.k[2]) /\ Every(x.k[2], Attribute)
ModifyRequest(x) == ~x.p /\ Len(x.k) >= 2 /\ Str(x.k[1]) /\ List(x.k[2]) /\ Every(x.k[2], Change)
RenameRequest(x) ==
    /\ ~x.p /\ Len(x.k) >= 3 /\ Str(x.k[1]) /\ Str(x.k[2]) /\ Bool(x.k[3])
    /\ Len(x.k) >= 4 => x.k[4].c = Context
DeleteRequest(x) == x.p

PasswordPart(x) == x.c = Context /\ x.p /\ x.t \in 0..2
PasswordBody(x) == x.n = 0 \/ (Len(x.k) = 1 /\ List(x.k[1]) /\ Every(x.k[1], PasswordPart))
ExtendedRequest(x) ==
    /\ ~x.p /\ Len(x.k) >= 1
    /\ x.k[1].c = Context /\ x.k[1].p /\ x.k[1].t = 0
    /\ Len(x.k) >= 2 => x.k[2].c = Context /\ x.k[2].t = 1 /\ PasswordBody(x.k[2])

\* Requests that can change the directory and are of the right form.
WellFormedChange(m) ==
    /\ List(m) /\ Len(m.k) >= 2 /\ Int(m.k[1])
    /\ LET op == m.k[2]
       IN  op.c = Application
           /\ CASE op.t = 6 -> ModifyRequest(op)
                [] op.t = 8 -> AddRequest(op)
                [] op.t = 10 -> DeleteRequest(op)
                [] op.t = 12 -> RenameRequest(op)
                [] op.t = 23 -> ExtendedRequest(op)
                [] OTHER -> FALSE
=============================================================================
