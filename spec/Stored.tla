------------------------------- MODULE Stored -------------------------------
EXTENDS LdapData

(* The stored form: the three indexes describe one well formed tree.       *)
(* raw.dn2id:  sequence of <<dn, id>>     raw.ids: sequence of <<id, dn>>  *)
(* raw.kids:   sequence of <<id, <<ids>> >>   raw.seq: last number issued  *)

RawOK(base, raw) ==
    LET names == Range(raw.dn2id)
        ents  == Range(raw.ids)
        dns == { p[1] : p \in names }
        eids == { p[1] : p \in ents }
        idOf == TLCEval([d \in dns |-> (CHOOSE p \in names : p[1] = d)[2]])
        kids == UNION { { <<raw.kids[k][1], i>> : i \in Range(raw.kids[k][2]) } : k \in DOMAIN raw.kids }
    IN  /\ Len(raw.dn2id) = Cardinality(dns)                    \* one name, one entry
        /\ Len(raw.ids) = Cardinality({ p[2] : p \in ents })
        /\ Len(raw.dn2id) = Cardinality({ p[2] : p \in names })
        /\ { <<p[2], p[1]>> : p \in names } = ents              \* name index = entry store
        /\ \A p \in ents : p[1] >= 1 /\ p[1] <= raw.seq
        /\ \A p \in names : IsBelowOrEqual(base, p[1])
        /\ \A d \in dns : d # base => Parent(d) \in dns         \* parents exist
        /\ \A k \in DOMAIN raw.kids :                           \* child index = parent relation
              /\ Len(raw.kids[k][2]) = Cardinality(Range(raw.kids[k][2]))
              /\ raw.kids[k][2] # << >> => raw.kids[k][1] \in eids
        /\ kids = { <<idOf[Parent(d)], idOf[d]>> : d \in dns \ {base} }

\* Between two stored states: an identifier keeps denoting the same entry or
\* disappears for good; new identifiers are larger than all issued before.
IdsOK(r1, r2) ==
    LET i1 == { p[1] : p \in Range(r1.ids) }
        i2 == { p[1] : p \in Range(r2.ids) }
    IN  /\ r2.seq >= r1.seq
        /\ \A i \in i2 \ i1 : i > r1.seq
=============================================================================
