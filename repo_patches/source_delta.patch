From b14f24b2d6e6cad8af061cf1c83b8e3fd6f0f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 01/39] fix: release the statistics lock after counting an add

With statistics enabled the first add request blocked its connection and
every later request of all connections.
---
 pkg/ldapserver/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index c18e627..2b30685 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -47,7 +47,7 @@ func (stats *Stats) countAdds(delta uint64) {
 	if stats != nil {
 		stats.statsMutex.Lock()
 		stats.Adds += delta
-		stats.statsMutex.Lock()
+		stats.statsMutex.Unlock()
 	}
 }
 
-- 
2.43.0


From 8f08e74afcb03b5b344c5b5d74e468a7184b9b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 02/39] fix: include the maximum of connections in copied
 statistics

---
 pkg/ldapserver/stats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index 2b30685..2a1dbcd 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -106,6 +106,7 @@ func (stats *Stats) Clone() *Stats {
 		stats.statsMutex.RLock()
 		s2.Conns = stats.Conns
 		s2.ConnsCurrent = stats.ConnsCurrent
+		s2.ConnsMax = stats.ConnsMax
 		s2.Adds = stats.Adds
 		s2.Binds = stats.Binds
 		s2.Deletes = stats.Deletes
-- 
2.43.0


From 7c6a5a395ac63e8ccd20bffcba1c200d769d8c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 03/39] fix: answer refused extended operations that carry no
 error text

A password change refused for lack of permission dereferenced a nil error
and ended the server process.
---
 pkg/ldapserver/extended.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/extended.go b/pkg/ldapserver/extended.go
index 83ad790..751f27c 100644
--- a/pkg/ldapserver/extended.go
+++ b/pkg/ldapserver/extended.go
@@ -33,7 +33,9 @@ func HandleExtendedRequest(req *ber.Packet, boundDN string, server *Server, conn
 		msg := ""
 		if err != nil {
 			if lerr, ok := err.(*ldap.Error); ok {
-				msg = lerr.Err.Error()
+				if lerr.Err != nil {
+					msg = lerr.Err.Error()
+				}
 				resCode = LDAPResultCode(lerr.ResultCode)
 			} else {
 				msg = err.Error()
-- 
2.43.0


From e31009d02578d4966e4b45a8dceaecf8c201c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 04/39] fix: return the generated password instead of its hash

---
 pkg/ldapserver/pwmodifyexop.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ldapserver/pwmodifyexop.go b/pkg/ldapserver/pwmodifyexop.go
index 8d71965..da052c1 100644
--- a/pkg/ldapserver/pwmodifyexop.go
+++ b/pkg/ldapserver/pwmodifyexop.go
@@ -24,7 +24,7 @@ func init() {
 }
 
 func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, conn net.Conn) (*ber.Packet, error) {
-	var passwordGenerated bool
+	var generatedPassword string
 	logger.V(1).Info("HandlePasswordModifyExOp")
 	if boundDN == "" {
 		return nil, ldap.NewError(ldap.LDAPResultUnwillingToPerform, errors.New("authentication required"))
@@ -47,7 +47,7 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 			logger.Error(err, "Failed to generate new password")
 			return nil, ldap.NewError(ldap.LDAPResultOperationsError, errors.New("Failed to generate new Password"))
 		}
-		passwordGenerated = true
+		generatedPassword = pwReq.NewPassword
 	}
 	pwReq.NewPassword, err = ldappassword.Hash(pwReq.NewPassword, "{ARGON2}")
 	if err != nil {
@@ -75,9 +75,9 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 		return nil, ldap.NewError(uint16(code), err)
 	}
 	var response *ber.Packet
-	if passwordGenerated {
+	if generatedPassword != "" {
 		response = ber.NewSequence("PasswdModifyResponseValue")
-		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, pwReq.NewPassword, "genPasswd"))
+		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, generatedPassword, "genPasswd"))
 	}
 	return response, nil
 }
-- 
2.43.0


From 8566c8eda6aa2895941d5c784d39d70ba0fc3a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 05/39] fix: refuse incomplete changes in modify requests

---
 pkg/ldapserver/modify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ldapserver/modify.go b/pkg/ldapserver/modify.go
index f9f4c20..04113ca 100644
--- a/pkg/ldapserver/modify.go
+++ b/pkg/ldapserver/modify.go
@@ -82,6 +82,9 @@ func parseModList(req *ber.Packet) ([]ldap.Change, error) {
 
 	for _, c := range req.Children {
 		var change ldap.Change
+		if len(c.Children) != 2 || c.Children[0].Data == nil || c.Children[0].Data.Len() == 0 {
+			return nil, ldap.NewError(ldap.LDAPResultProtocolError, errors.New("error decoding Change"))
+		}
 		switch c.Children[0].Data.Bytes()[0] {
 		default:
 			return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid change operation"))
-- 
2.43.0


From 87a59769d2478a84bfeac5d89b27cfaa3ba96e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 06/39] fix: answer compare requests with a compare response

---
 pkg/ldapserver/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 0ecab75..624a296 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -313,7 +313,7 @@ handler:
 			}
 
 		case ldap.ApplicationCompareRequest:
-			responsePacket := encodeLDAPResponse(messageID, ldap.ApplicationCompareRequest, ldap.LDAPResultOperationsError, "Unsupported operation: compare")
+			responsePacket := encodeLDAPResponse(messageID, ldap.ApplicationCompareResponse, ldap.LDAPResultOperationsError, "Unsupported operation: compare")
 			if err = sendPacket(conn, responsePacket); err != nil {
 				logger.Error(err, "sendPacket error")
 			}
-- 
2.43.0


From 0678c5802f168560a14f00563bd8cdda7c6c8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 07/39] fix: make the connection anonymous after a failed bind

---
 pkg/ldapserver/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 624a296..6498b89 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -305,6 +305,9 @@ handler:
 					break handler
 				}
 
+			} else {
+				// A failed bind leaves the connection anonymous (RFC 4513, section 4).
+				boundDN = ""
 			}
 			responsePacket := encodeBindResponse(messageID, ldapResultCode)
 			if err = sendPacket(conn, responsePacket); err != nil {
-- 
2.43.0


From ac3dacf784a3a21c8310162d57f90dc2c207a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 08/39] fix: end only the connection when handling a request
 panics

Malformed controls make the decoder panic. Without recovery this ended the
server process, even for unauthenticated clients.
---
 pkg/ldapserver/server.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 6498b89..3c9506c 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -8,6 +8,7 @@ package ldapserver
 import (
 	"crypto/tls"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"net"
@@ -213,6 +214,18 @@ listener:
 func (server *Server) handleConnection(conn net.Conn) {
 	boundDN := "" // "" == anonymous
 
+	defer func() {
+		if r := recover(); r != nil {
+			logger.Error(fmt.Errorf("%v", r), "panic while handling connection")
+		}
+		for _, c := range server.CloseFns {
+			c.Close(boundDN, conn)
+		}
+
+		conn.Close()
+		server.Stats.countConnsClose(1)
+	}()
+
 handler:
 	for {
 		// Read incoming LDAP packet.
@@ -432,13 +445,6 @@ handler:
 
 		}
 	}
-
-	for _, c := range server.CloseFns {
-		c.Close(boundDN, conn)
-	}
-
-	conn.Close()
-	server.Stats.countConnsClose(1)
 }
 
 func sendPacket(conn net.Conn, packet *ber.Packet) error {
-- 
2.43.0


From 6690cd48391b709675f8ac0a18311331ae8bc3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 09/39] fix: keep the connection open after a search ended with
 an error

A search exceeding its size limit disconnected the client, and requests it
had already sent were never answered.
---
 pkg/ldapserver/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 3c9506c..2e257a7 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -432,7 +432,6 @@ handler:
 					logger.Error(err, "sendPacket error")
 					break handler
 				}
-				break handler
 			} else {
 				if err = sendPacket(conn, encodeSearchDone(messageID, ldap.LDAPResultSuccess, doneControls)); err != nil {
 					logger.Error(err, "sendPacket error")
-- 
2.43.0


From 209ba0c67ccc3299f118373ade577c7861dbad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 10/39] fix: return each requested attribute only once

---
 pkg/ldapserver/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/search.go b/pkg/ldapserver/search.go
index 992707d..ab9224a 100644
--- a/pkg/ldapserver/search.go
+++ b/pkg/ldapserver/search.go
@@ -164,6 +164,7 @@ func filterAttributes(entry *ldap.Entry, attributes []string) (*ldap.Entry, erro
 		for _, requested := range attributes {
 			if requested == "*" || strings.EqualFold(attr.Name, requested) {
 				newAttributes = append(newAttributes, attr)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 823e1e926ea4fddb1138759f0b4333989434d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 11/39] fix: single level searches with separators in entry
 names

Splitting the name at commas made the search fail as soon as a name
contained an escaped comma.
---
 pkg/ldapserver/filter.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 1ec4cc1..04d468a 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -163,16 +163,7 @@ func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPR
 			return false, ldap.LDAPResultSuccess
 		}
 	case ldap.ScopeSingleLevel: // The scope is constrained to the immediate subordinates of the entry named by baseObject.
-		parts := strings.Split(entry.DN, ",")
-		if len(parts) < 2 && !parsedDn.EqualFold(parsedBaseDn) {
-			return false, ldap.LDAPResultSuccess
-		}
-		subDn := strings.Join(parts[1:], ",")
-		parsedSubDn, err := ldap.ParseDN(subDn)
-		if err != nil {
-			return false, ldap.LDAPResultOperationsError
-		}
-		if !parsedSubDn.EqualFold(parsedBaseDn) {
+		if len(parsedDn.RDNs) != len(parsedBaseDn.RDNs)+1 || !parsedBaseDn.AncestorOfFold(parsedDn) {
 			return false, ldap.LDAPResultSuccess
 		}
 	}
-- 
2.43.0


From a144d06ad6db7eeda06d1cb7bd72c7e93c1ebdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 12/39] fix: restrict subtree searches to the subtree

The LDIF handler selects candidates by comparing the end of the name, which
also matches names that merely end with the same characters.
---
 pkg/ldapserver/filter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 04d468a..345d5aa 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -158,6 +158,9 @@ func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPR
 	}
 	switch scope {
 	case ldap.ScopeWholeSubtree: // The scope is constrained to the entry named by baseObject and to all its subordinates.
+		if !parsedDn.EqualFold(parsedBaseDn) && !parsedBaseDn.AncestorOfFold(parsedDn) {
+			return false, ldap.LDAPResultSuccess
+		}
 	case ldap.ScopeBaseObject: // The scope is constrained to the entry named by baseObject.
 		if !parsedDn.EqualFold(parsedBaseDn) {
 			return false, ldap.LDAPResultSuccess
-- 
2.43.0


From 31a130791680a203d703c1faf448f1a3fa68916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 13/39] fix: evaluate all parts of substring filters

Only the first part was looked at, so that (cn=a*z) matched everything
starting with a.
---
 pkg/ldapserver/filter.go | 47 ++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 345d5aa..8ef7fc2 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -110,25 +110,11 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 			return false, ldap.LDAPResultOperationsError
 		}
 		attribute := f.Children[0].Value.(string)
-		bytes := f.Children[1].Children[0].Data.Bytes()
-		value := casefold.String(string(bytes))
 		for _, a := range entry.Attributes {
 			if strings.EqualFold(a.Name, attribute) {
 				for _, v := range a.Values {
-					v = casefold.String(v)
-					switch f.Children[1].Children[0].Tag {
-					case FilterSubstringsInitial:
-						if strings.HasPrefix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsAny:
-						if strings.Contains(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsFinal:
-						if strings.HasSuffix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
+					if matchSubstrings(f.Children[1].Children, casefold.String(v)) {
+						return true, ldap.LDAPResultSuccess
 					}
 				}
 			}
@@ -146,6 +132,35 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 	return false, ldap.LDAPResultSuccess
 }
 
+// matchSubstrings checks if all parts of a substring filter occur in the case
+// folded value, in order and without overlapping.
+func matchSubstrings(parts []*ber.Packet, v string) bool {
+	for _, part := range parts {
+		value := casefold.String(part.Data.String())
+		switch part.Tag {
+		case FilterSubstringsInitial:
+			if !strings.HasPrefix(v, value) {
+				return false
+			}
+			v = v[len(value):]
+		case FilterSubstringsAny:
+			i := strings.Index(v, value)
+			if i < 0 {
+				return false
+			}
+			v = v[i+len(value):]
+		case FilterSubstringsFinal:
+			if !strings.HasSuffix(v, value) {
+				return false
+			}
+			v = ""
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPResultCode) {
 	// constrained search scope
 	parsedBaseDn, err := ldap.ParseDN(baseDN)
-- 
2.43.0


From 18d0d69b390cd2f4340893dac2d9f80d1c8b59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 14/39] fix: refuse empty names instead of panicking

Adding, deleting or renaming an entry with an empty name, or renaming to an
empty name, indexed past the end of the parsed name.  A new RDN consisting
of several RDNs is refused as well instead of being cut off.
---
 pkg/ldbbolt/ldbbolt.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 2d6f554..be2c903 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -49,6 +49,8 @@ var (
 	ErrEntryAlreadyExists = errors.New("entry already exists")
 	ErrEntryNotFound      = errors.New("entry does not exist")
 	ErrNonLeafEntry       = errors.New("entry is not a leaf entry")
+
+	errEmptyDN = ldap.NewError(ldap.LDAPResultInvalidDNSyntax, errors.New("empty DN"))
 )
 
 func (bdb *LdbBolt) Configure(logger logrus.FieldLogger, baseDN, dbfile string, options *bolt.Options) error {
@@ -180,7 +182,13 @@ func (bdb *LdbBolt) EntryPut(e *ldap.Entry) error {
 		panic(err)
 	}
 
-	dn, _ := ldap.ParseDN(e.DN)
+	dn, err := ldap.ParseDN(e.DN)
+	if err != nil {
+		return err
+	}
+	if len(dn.RDNs) == 0 {
+		return errEmptyDN
+	}
 	parentDN := &ldap.DN{
 		RDNs: dn.RDNs[1:],
 	}
@@ -191,7 +199,7 @@ func (bdb *LdbBolt) EntryPut(e *ldap.Entry) error {
 	}
 
 	nParentDN := ldapdn.Normalize(parentDN)
-	err := bdb.db.Update(func(tx *bolt.Tx) error {
+	err = bdb.db.Update(func(tx *bolt.Tx) error {
 		id2entry := tx.Bucket([]byte("id2entry"))
 		id := bdb.getIDByDN(tx, nDN)
 		if id != 0 {
@@ -224,6 +232,9 @@ func (bdb *LdbBolt) EntryDelete(dn string) error {
 	if err != nil {
 		return err
 	}
+	if len(parsed.RDNs) == 0 {
+		return errEmptyDN
+	}
 	pparentDN := &ldap.DN{
 		RDNs: parsed.RDNs[1:],
 	}
@@ -322,6 +333,13 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		return err
 	}
 
+	if len(olddn.RDNs) == 0 || len(newrdn.RDNs) == 0 {
+		return errEmptyDN
+	}
+	if len(newrdn.RDNs) > 1 {
+		return ldap.NewError(ldap.LDAPResultInvalidDNSyntax, errors.New("new RDN is not a single RDN"))
+	}
+
 	var newDN ldap.DN
 
 	newDN.RDNs = []*ldap.RelativeDN{newrdn.RDNs[0]}
-- 
2.43.0


From 71285cb58d7ac67e3e44a7469e2140ddedaa2d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 15/39] fix: do not rename the base entry

Renaming it stored an entry outside of the configured base.
---
 pkg/ldbbolt/ldbbolt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index be2c903..2f0418f 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -359,6 +359,11 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 			return innerErr
 		}
 
+		// the base entry has to stay where it is
+		if flatOldDN == bdb.base {
+			return ldap.NewError(ldap.LDAPResultUnwillingToPerform, errors.New("renaming the base entry is not supported"))
+		}
+
 		// only allow renaming leaf entries
 		childIds := bdb.getChildrenIDs(tx, id)
 		if len(childIds) > 0 {
-- 
2.43.0


From 827047c818df973221e0aa3cd4414b75865232f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 16/39] fix: apply deletions to the result of the preceding
 changes

A modify request that added or replaced values of an attribute and then
deleted some of them lost the earlier changes.
---
 pkg/ldapentry/ldapentry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index d2e83ad..aa2de08 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -65,7 +65,7 @@ func ApplyModify(old *ldap.Entry, mod *ldap.ModifyRequest) (newEntry *ldap.Entry
 					}
 				}
 			}
-			newValues := entryApplyModDelete(old.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
+			newValues := entryApplyModDelete(newEntry.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
 			newEntry.Attributes = entryReplaceValues(newEntry.Attributes, c.Modification.Type, newValues)
 		}
 	}
-- 
2.43.0


From 1a443d4329db39dbbf9a81524dc2589d1b82a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 17/39] fix: do not add the same value twice within one change

---
 pkg/ldapentry/ldapentry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index aa2de08..1d2d9ec 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -100,7 +100,7 @@ func entryApplyModAdd(curVals, addVals []string) (newVals []string) {
 	casefold := cases.Fold()
 	for _, newVal := range addVals {
 		present := false
-		for _, val := range curVals {
+		for _, val := range newVals {
 			if casefold.String(newVal) == casefold.String(val) {
 				present = true
 				break
-- 
2.43.0


From 97250a3e5150988f083e6386d44fc4a1b62343d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 18/39] fix: validate malformed password hashes without
 panicking

Missing passwords and truncated hashes indexed past the end of the data.
The salt of a salted SHA-1 hash may have any length, not just four bytes.
---
 pkg/ldappassword/ldappassword.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index d4c801c..7da4cfd 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -21,6 +21,10 @@ import (
 var Argon2DefaultParams = argon2id.DefaultParams
 
 func Validate(password string, hash string) (bool, error) {
+	if hash == "" {
+		return false, fmt.Errorf("no password set")
+	}
+
 	algorithm := ""
 	if hash[0] == '{' {
 		algorithmEnd := strings.Index(hash[0:], "}")
@@ -51,6 +55,9 @@ func Validate(password string, hash string) (bool, error) {
 		return true, nil
 
 	case "{CRYPT}":
+		if len(hash) < 2 {
+			return false, fmt.Errorf("crypt error: hash too short")
+		}
 		// By default the salt is a two character string.
 		salt := hash[:2]
 		if hash[0] == '$' {
@@ -69,12 +76,15 @@ func Validate(password string, hash string) (bool, error) {
 
 	case "{SSHA}":
 		// BASE64(SHA-1(clear_text + salt) + salt)
-		// The salt is 4 bytes long.
+		// The salt is everything after the digest, usually 4 or 8 bytes long.
 		decodedBytes, err := base64.StdEncoding.DecodeString(hash)
 		if err != nil {
 			return false, fmt.Errorf("ssha error: %w", err)
 		}
-		salt := decodedBytes[len(decodedBytes)-4:]
+		if len(decodedBytes) < sha1.Size {
+			return false, fmt.Errorf("ssha error: hash too short")
+		}
+		salt := decodedBytes[sha1.Size:]
 		h := sha1.New() //nolint,gosec
 		h.Write([]byte(password))
 		h.Write(salt)
-- 
2.43.0


From 5f7c9fab6d8f789d21d5f4bb2df58b5c880c4796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:08 +0000
Subject: [PATCH 19/39] fix: require authentication for searches in the boltdb
 handler

Everybody could read all entries, including the password hashes, without
binding.  Anonymous access is now limited to local clients and only if it
is enabled, as in the LDIF handler.
---
 server/handler/boltdb/handler.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/server/handler/boltdb/handler.go b/server/handler/boltdb/handler.go
index 4f192fb..3b6f78f 100644
--- a/server/handler/boltdb/handler.go
+++ b/server/handler/boltdb/handler.go
@@ -125,6 +125,10 @@ func (h *boltdbHandler) Bind(bindDN, bindSimplePw string, conn net.Conn) (ldapse
 			logger.Debugln("ldap anonymous Bind disabled")
 			return ldap.LDAPResultInvalidCredentials, nil
 		} else if bindSimplePw == "" {
+			if !isLocal(conn) {
+				logger.Debugln("ldap anonymous Bind rejected, not a local client")
+				return ldap.LDAPResultInvalidCredentials, nil
+			}
 			return ldap.LDAPResultSuccess, nil
 		}
 	}
@@ -294,6 +298,12 @@ func (h *boltdbHandler) Search(boundDN string, req *ldap.SearchRequest, conn net
 		"attrs":  req.Attributes,
 	})
 
+	if boundDN == "" && !(h.allowLocalAnonymousBind && isLocal(conn)) {
+		return ldapserver.ServerSearchResult{
+			ResultCode: ldap.LDAPResultInsufficientAccessRights,
+		}, errors.New("anonymous search not allowed")
+	}
+
 	logger.Debug("Calling boltdb search")
 	entries, _ := h.bdb.Search(req.BaseDN, req.Scope)
 	logger.Debugf("boltdb search returned %d entries", len(entries))
@@ -325,6 +335,12 @@ func (h *boltdbHandler) Reload(ctx context.Context) error {
 	return nil
 }
 
+// isLocal tells if the client connected from a loopback address.
+func isLocal(conn net.Conn) bool {
+	host, _, _ := net.SplitHostPort(conn.RemoteAddr().String())
+	return net.ParseIP(host).IsLoopback()
+}
+
 func (h *boltdbHandler) writeAllowed(boundDN string) bool {
 	if h.adminDN != "" && h.adminDN == boundDN {
 		return true
-- 
2.43.0


From 54b536b692cab872326ae3a874f142dce2310262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:19 +0000
Subject: [PATCH 20/39] fix: keep accepting connections after a temporary error

Running out of file descriptors once stopped the server from ever accepting
a connection again.
---
 pkg/ldapserver/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 2e257a7..28f1aa5 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -13,6 +13,7 @@ import (
 	"log"
 	"net"
 	"strings"
+	"time"
 
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
@@ -190,6 +191,11 @@ func (server *Server) Serve(ln net.Listener) error {
 				if !strings.HasSuffix(err.Error(), "use of closed network connection") {
 					logger.Error(err, "Error accepting network connection")
 				}
+				if ne, ok := err.(net.Error); ok && ne.Temporary() {
+					// For example too many open files, try again later.
+					time.Sleep(50 * time.Millisecond)
+					continue
+				}
 				break
 			}
 			logger.V(1).Info("New Connection", "addr", ln.Addr())
-- 
2.43.0


From 57911712bbdb72c9a2c0101df49eaff7f308a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:47 +0000
Subject: [PATCH 21/39] fix: ignore case in the substring indexes of the LDIF
 handler

An initial or final substring filter only found values spelled with the
same letter case when an index existed for the attribute.
---
 server/handler/ldif/index.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/server/handler/ldif/index.go b/server/handler/ldif/index.go
index 42c20fc..c422ad6 100644
--- a/server/handler/ldif/index.go
+++ b/server/handler/ldif/index.go
@@ -12,8 +12,12 @@ import (
 	"github.com/armon/go-radix"
 	"github.com/libregraph/idm/pkg/ldapserver"
 	"github.com/spacewander/go-suffix-tree"
+	"golang.org/x/text/cases"
 )
 
+// casefold makes the keys of all indexes, values are compared ignoring case.
+var casefold = cases.Fold()
+
 var indexAttributes = map[string]string{
 	"entryCSN":     "eq",
 	"entryUUID":    "eq",
@@ -60,14 +64,14 @@ func newIndexMap() indexMap {
 
 func (im indexMap) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		value = strings.ToLower(value)
+		value = casefold.String(value)
 		im[value] = append(im[value], entry)
 	}
 	return true
 }
 
 func (im indexMap) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
-	entries := im[strings.ToLower(value[0])]
+	entries := im[casefold.String(value[0])]
 	return entries, true
 }
 
@@ -83,7 +87,7 @@ func newIndexSuffixTree() *indexSuffixTree {
 
 func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		sfx := []byte(value)
+		sfx := []byte(casefold.String(value))
 		var entries []*ldifEntry
 		if v, ok := ist.t.Get(sfx); ok {
 			entries = v.([]*ldifEntry)
@@ -96,7 +100,7 @@ func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (ist indexSuffixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	sfx := []byte(value[0])
+	sfx := []byte(casefold.String(value[0]))
 	ist.t.WalkSuffix(sfx, func(key []byte, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
@@ -116,7 +120,7 @@ func newIndexRadixTree() *indexRadixTree {
 
 func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		pfx := value
+		pfx := casefold.String(value)
 		var entries []*ldifEntry
 		if v, ok := irt.t.Get(pfx); ok {
 			entries = v.([]*ldifEntry)
@@ -129,7 +133,7 @@ func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (irt *indexRadixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	pfx := value[0]
+	pfx := casefold.String(value[0])
 	irt.t.WalkPrefix(pfx, func(key string, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
-- 
2.43.0


From 37a76df51561673bc71585d35f2240b44ac61bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:47 +0000
Subject: [PATCH 22/39] fix: do not lose results of or filters in the LDIF
 handler

Alternatives which cannot be looked up in an index (negations) and
alternatives on objectClass were left out, thus entries matching only
those were not found.
---
 server/handler/ldif/filter.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/server/handler/ldif/filter.go b/server/handler/ldif/filter.go
index cf32e50..135a804 100644
--- a/server/handler/ldif/filter.go
+++ b/server/handler/ldif/filter.go
@@ -28,7 +28,7 @@ func parseFilterToIndexFilter(filter string) ([][]string, error) {
 		return nil, fmt.Errorf("parse filter for index failed: %w", err)
 	} else {
 		withObjectClass := true
-		if len(matches) > 1 {
+		if len(matches) > 1 && !hasOrLevel(matches) {
 			// NOTE(longsleep): In case of more than one filter, we remove the
 			// index lookup for objectClass since pretty much everything has
 			// an object class anyways and our index lookup does not support
@@ -50,6 +50,16 @@ func parseFilterToIndexFilter(filter string) ([][]string, error) {
 	return result, err
 }
 
+// hasOrLevel tells if any of the matches is an alternative of an "or" filter.
+func hasOrLevel(matches [][]string) bool {
+	for _, f := range matches {
+		if strings.Contains(f[0], "|") {
+			return true
+		}
+	}
+	return false
+}
+
 func parseFilterMatchLeavesForIndex(f *ber.Packet, parent [][]string, level string) ([][]string, error) {
 	var err error
 
@@ -97,10 +107,14 @@ func parseFilterMatchLeavesForIndex(f *ber.Packet, parent [][]string, level stri
 
 	case ldapserver.FilterOr:
 		for idx, child := range f.Children {
+			count := len(parent)
 			parent, err = parseFilterMatchLeavesForIndex(child, parent, fmt.Sprintf("%s.|%d", level, idx))
 			if err != nil {
 				return nil, err
 			}
+			if len(parent) == count {
+				return nil, errors.New("alternative without index in or filter")
+			}
 		}
 
 	case ldapserver.FilterNot:
-- 
2.43.0


From e696513be9f873de132a233ad3f197fb4b045d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:47 +0000
Subject: [PATCH 23/39] fix: compare names instead of characters for the base
 DN of LDIF handlers

A name like cn=user,xdc=example ends with the characters of dc=example but
is not below it.
---
 server/handler/ldif/handler.go    | 17 +++++++++++++++--
 server/handler/ldif/middleware.go |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index d93dc27..d4cbb5e 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -250,7 +250,7 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 
 	indexFilter, _ := parseFilterToIndexFilter(searchReq.Filter)
 
-	if !strings.HasSuffix(searchBaseDN, h.baseDN) {
+	if !isInBaseDN(searchBaseDN, h.baseDN) {
 		err := fmt.Errorf("ldap search BaseDN is not in our BaseDN %s", h.baseDN)
 		return ldapserver.ServerSearchResult{
 			ResultCode: ldap.LDAPResultInsufficientAccessRights,
@@ -496,12 +496,25 @@ func (h *ldifHandler) validateBindDN(bindDN string, conn net.Conn) error {
 		return fmt.Errorf("anonymous BindDN not allowed")
 	}
 
-	if strings.HasSuffix(bindDN, h.baseDN) {
+	if isInBaseDN(bindDN, h.baseDN) {
 		return nil
 	}
 	return fmt.Errorf("the BindDN is not in our BaseDN: %s", h.baseDN)
 }
 
+// isInBaseDN tells if dn is the base DN or somewhere below it.
+func isInBaseDN(dn, baseDN string) bool {
+	parsed, err := ldap.ParseDN(dn)
+	if err != nil {
+		return false
+	}
+	base, err := ldap.ParseDN(baseDN)
+	if err != nil {
+		return false
+	}
+	return base.EqualFold(parsed) || base.AncestorOfFold(parsed)
+}
+
 func (h *ldifHandler) Close(bindDN string, conn net.Conn) error {
 	h.logger.WithFields(logrus.Fields{
 		"bind_dn":     bindDN,
diff --git a/server/handler/ldif/middleware.go b/server/handler/ldif/middleware.go
index f314444..df8651c 100644
--- a/server/handler/ldif/middleware.go
+++ b/server/handler/ldif/middleware.go
@@ -148,7 +148,7 @@ func (h *ldifMiddleware) Bind(bindDN, bindSimplePw string, conn net.Conn) (resul
 			"remote_addr": conn.RemoteAddr().String(),
 		})
 
-		if !strings.HasSuffix(bindDN, h.baseDN) {
+		if !isInBaseDN(bindDN, h.baseDN) {
 			err := fmt.Errorf("the BindDN is not in our BaseDN %s", h.baseDN)
 			logger.WithError(err).Infoln("ldap bind error")
 			return ldap.LDAPResultInvalidCredentials, nil
-- 
2.43.0


From 6e884b3fd8252dd08f4470f32e6f713d1bd207b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:47 +0000
Subject: [PATCH 24/39] fix: refuse binds to LDIF entries without password

The missing attribute was dereferenced.
---
 server/handler/ldif/entry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler/ldif/entry.go b/server/handler/ldif/entry.go
index 150bf61..3ed782d 100644
--- a/server/handler/ldif/entry.go
+++ b/server/handler/ldif/entry.go
@@ -20,6 +20,9 @@ type ldifEntry struct {
 }
 
 func (entry *ldifEntry) validatePassword(bindSimplePw string) error {
+	if entry.UserPassword == nil || len(entry.UserPassword.Values) == 0 {
+		return fmt.Errorf("no password")
+	}
 	match, err := ldappassword.Validate(bindSimplePw, entry.UserPassword.Values[0])
 	if err != nil {
 		return err
-- 
2.43.0


From f3536a0b289cec7671e80e0374aeb75bebccae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:26 +0000
Subject: [PATCH 25/39] fix: end and abandon paged searches of the LDIF handler
 properly

If the results filled the last page exactly, its cookie was refused instead
of being answered with an empty last page. Abandoning a paged search by
asking for a page of size zero was never answered.
---
 server/handler/ldif/handler.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index d4cbb5e..9bb6df0 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -294,6 +294,9 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 					logger.WithField("paging_cookie", string(pagingControl.Cookie)).Debugln("search paging pump abandon")
 					// TODO(longsleep): Cancel paging pump context.
 					h.activeSearchPagings.Remove(string(pagingControl.Cookie))
+					// There is nothing more to deliver.
+					pumpCh = make(chan *ldifEntry)
+					close(pumpCh)
 				}
 			}
 		} else {
@@ -331,6 +334,9 @@ results:
 		case entryRecord = <-pumpCh:
 			if entryRecord == nil {
 				// All done, set cookie to empty.
+				if pagingControl != nil {
+					h.activeSearchPagings.Remove(string(pagingControl.Cookie))
+				}
 				pagingCookie = []byte{}
 				break results
 
@@ -482,6 +488,12 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 			return false
 		})
 	}
+
+	if pagingControl != nil {
+		// Keep the cookie valid until the end was delivered, the last page
+		// might have been filled exactly.
+		pump(nil)
+	}
 }
 
 func (h *ldifHandler) validateBindDN(bindDN string, conn net.Conn) error {
-- 
2.43.0


From d1b416fde5f35f7c5d07aa00c73958f7697f843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:22 +0000
Subject: [PATCH 26/39] fix: reload the LDIF configuration together with the
 main data

If the main data could not be loaded the configuration was changed
nevertheless, and while the main data was being loaded binds were answered
from the new configuration and the old main data.
---
 server/handler/ldif/middleware.go | 39 +++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/server/handler/ldif/middleware.go b/server/handler/ldif/middleware.go
index df8651c..ca6404f 100644
--- a/server/handler/ldif/middleware.go
+++ b/server/handler/ldif/middleware.go
@@ -12,6 +12,7 @@ import (
 	"net"
 	"path/filepath"
 	"strings"
+	"sync"
 	"sync/atomic"
 
 	"github.com/go-ldap/ldap/v3"
@@ -30,6 +31,10 @@ type ldifMiddleware struct {
 
 	current atomic.Value
 
+	// reloading is held while the data of this and the next handler is
+	// exchanged, so that binds do not see a mixture of both versions.
+	reloading *sync.RWMutex
+
 	next handler.Handler
 }
 
@@ -55,37 +60,39 @@ func NewLDIFMiddleware(logger logrus.FieldLogger, fn string, options *Options) (
 		options: options,
 
 		baseDN: strings.ToLower(options.BaseDN),
+
+		reloading: &sync.RWMutex{},
 	}
 
-	err = h.open()
+	value, err := h.parse()
 	if err != nil {
 		return nil, err
 	}
+	h.current.Store(value)
 
 	return h, nil
 }
 
-func (h *ldifMiddleware) open() error {
+// parse reads the LDIF file and returns its data as memory value.
+func (h *ldifMiddleware) parse() (*ldifMemoryValue, error) {
 	if !strings.EqualFold(h.options.BaseDN, h.baseDN) {
-		return fmt.Errorf("mismatched BaseDN")
+		return nil, fmt.Errorf("mismatched BaseDN")
 	}
 
 	h.logger.Debugln("loading LDIF")
 	l, err := parseLDIFFile(h.fn, h.options)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	t, err := treeFromLDIF(l, nil, h.options)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
-	// Store parsed data as memory value.
 	value := &ldifMemoryValue{
 		t: t,
 	}
-	h.current.Store(value)
 
 	h.logger.WithFields(logrus.Fields{
 		"version":       l.Version,
@@ -94,7 +101,7 @@ func (h *ldifMiddleware) open() error {
 		"base_dn":       h.options.BaseDN,
 	}).Debugln("loaded LDIF")
 
-	return nil
+	return value, nil
 }
 
 func (h *ldifMiddleware) load() *ldifMemoryValue {
@@ -120,12 +127,21 @@ func (h *ldifMiddleware) WithContext(ctx context.Context) handler.Handler {
 }
 
 func (h *ldifMiddleware) Reload(ctx context.Context) error {
-	err := h.open()
+	value, err := h.parse()
 	if err != nil {
 		return err
 	}
 
-	return h.next.Reload(ctx)
+	h.reloading.Lock()
+	defer h.reloading.Unlock()
+
+	err = h.next.Reload(ctx)
+	if err != nil {
+		return err
+	}
+	h.current.Store(value)
+
+	return nil
 }
 
 func (h *ldifMiddleware) Add(_ string, _ *ldap.AddRequest, _ net.Conn) (ldapserver.LDAPResultCode, error) {
@@ -135,6 +151,9 @@ func (h *ldifMiddleware) Add(_ string, _ *ldap.AddRequest, _ net.Conn) (ldapserv
 func (h *ldifMiddleware) Bind(bindDN, bindSimplePw string, conn net.Conn) (resultCode ldapserver.LDAPResultCode, err error) {
 	bindDN = strings.ToLower(bindDN)
 
+	h.reloading.RLock()
+	defer h.reloading.RUnlock()
+
 	if bindSimplePw == "" { // Empty password means anonymous bind.
 		return h.next.Bind(bindDN, bindSimplePw, conn)
 	}
-- 
2.43.0


From c3d89de1c803fff10931f913381858941095b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:54 +0000
Subject: [PATCH 27/39] fix: limit size and nesting of received messages

The decoder is recursive and copies the content once per level. A message
of a few megabytes with nested elements could exhaust the stack or the
memory and stop the whole server. Read the message first and check it
before decoding. Values of controls are checked as well.
---
 pkg/ldapserver/packet.go | 140 +++++++++++++++++++++++++++++++++++++++
 pkg/ldapserver/server.go |   6 +-
 2 files changed, 143 insertions(+), 3 deletions(-)
 create mode 100644 pkg/ldapserver/packet.go

diff --git a/pkg/ldapserver/packet.go b/pkg/ldapserver/packet.go
new file mode 100644
index 0000000..2d25686
--- /dev/null
+++ b/pkg/ldapserver/packet.go
@@ -0,0 +1,140 @@
+package ldapserver
+
+import (
+	"bytes"
+	"errors"
+	"io"
+
+	ber "github.com/go-asn1-ber/asn1-ber"
+	"github.com/go-ldap/ldap/v3"
+)
+
+const (
+	// maxMessageSize is the maximum size of the content of a LDAP message.
+	maxMessageSize = 16 * 1024 * 1024
+	// maxNesting is the maximum number of elements contained in each other.
+	maxNesting = 128
+)
+
+var (
+	errMessageSize = errors.New("message is too large")
+	errNesting     = errors.New("message is nested too deeply")
+	errEncoding    = errors.New("invalid encoding")
+)
+
+// readPacket reads and decodes a single LDAP message. The decoder is recursive
+// and its memory usage grows with the nesting, so that messages must be checked
+// before they are passed on to it.
+func readPacket(reader io.Reader) (*ber.Packet, error) {
+	head := make([]byte, 2, 6)
+	if _, err := io.ReadFull(reader, head); err != nil {
+		return nil, err
+	}
+	if head[0] != byte(ber.ClassUniversal)|byte(ber.TypeConstructed)|byte(ber.TagSequence) {
+		return nil, errEncoding
+	}
+	if head[1] > 0x84 || head[1] == 0x80 {
+		return nil, errEncoding
+	} else if head[1] > 0x80 {
+		head = head[:2+head[1]&0x7f]
+		if _, err := io.ReadFull(reader, head[2:]); err != nil {
+			return nil, err
+		}
+	}
+	_, length, err := parseHeader(head)
+	if err != nil {
+		return nil, err
+	}
+	if length > maxMessageSize {
+		return nil, errMessageSize
+	}
+
+	message := bytes.NewBuffer(head)
+	if _, err := io.CopyN(message, reader, int64(length)); err != nil {
+		return nil, err
+	}
+	if err := checkEncoding(message.Bytes()); err != nil {
+		return nil, err
+	}
+	return ber.DecodePacketErr(message.Bytes())
+}
+
+// decodeControl decodes a control, the value of which may be an encoded element
+// itself.
+func decodeControl(control *ber.Packet) (ldap.Control, error) {
+	if count := len(control.Children); count > 1 {
+		value := control.Children[count-1]
+		if _, criticality := value.Value.(bool); value.Value != nil && !criticality {
+			if err := checkEncoding(value.Data.Bytes()); err != nil {
+				return nil, err
+			}
+		}
+	}
+	return ldap.DecodeControl(control)
+}
+
+// checkEncoding checks that the passed data consists of complete elements with
+// definite lengths (RFC 4511, section 5.1), which are not nested too deeply.
+func checkEncoding(data []byte) error {
+	ends := []int{len(data)} // where the elements being looked into end
+	for pos := 0; len(ends) > 0; {
+		end := ends[len(ends)-1]
+		if pos == end {
+			ends = ends[:len(ends)-1]
+			continue
+		}
+		size, length, err := parseHeader(data[pos:end])
+		if err != nil {
+			return err
+		}
+		if length > end-pos-size {
+			return errEncoding
+		}
+		constructed := ber.Type(data[pos])&ber.TypeConstructed != 0
+		pos += size
+		if !constructed {
+			pos += length
+			continue
+		}
+		if len(ends) > maxNesting {
+			return errNesting
+		}
+		ends = append(ends, pos+length)
+	}
+	return nil
+}
+
+// parseHeader returns the size of the header of the element at the beginning of
+// data, and the length of its content.
+func parseHeader(data []byte) (size int, length int, err error) {
+	if len(data) == 0 {
+		return 0, 0, errEncoding
+	}
+	size = 1
+	if data[0]&byte(ber.TagBitmask) == byte(ber.TagBitmask) {
+		// The tag continues as long as the highest bit is set.
+		for size < len(data) && data[size]&0x80 != 0 {
+			size++
+		}
+		size++
+	}
+	if size >= len(data) {
+		return 0, 0, errEncoding
+	}
+	first := data[size]
+	size++
+	if first < 0x80 {
+		return size, int(first), nil
+	}
+	count := int(first & 0x7f)
+	if count == 0 || count > 4 || size+count > len(data) {
+		return 0, 0, errEncoding
+	}
+	for _, b := range data[size : size+count] {
+		length = length<<8 | int(b)
+	}
+	if length < 0 {
+		return 0, 0, errEncoding
+	}
+	return size + count, length, nil
+}
diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 28f1aa5..915bbbb 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -235,11 +235,11 @@ func (server *Server) handleConnection(conn net.Conn) {
 handler:
 	for {
 		// Read incoming LDAP packet.
-		packet, err := ber.ReadPacket(conn)
+		packet, err := readPacket(conn)
 		if err == io.EOF || err == io.ErrUnexpectedEOF { // Client closed connection.
 			break
 		} else if err != nil {
-			logger.Error(err, "handleConnection ber.ReadPacket")
+			logger.Error(err, "handleConnection readPacket")
 			break
 		}
 
@@ -263,7 +263,7 @@ handler:
 		controls := []ldap.Control{}
 		if len(packet.Children) > 2 {
 			for _, child := range packet.Children[2].Children {
-				c, err := ldap.DecodeControl(child)
+				c, err := decodeControl(child)
 				if err != nil {
 					logger.Error(err, "handleConnection decode control")
 					continue
-- 
2.43.0


From 95c8fd50f72db51719075b1d83425c73545d84b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:54 +0000
Subject: [PATCH 28/39] fix: refuse password modify requests with a malformed
 body

A body that could not be decoded was treated as absent, and the password
of the bound user was replaced by a generated one.
---
 pkg/ldapserver/pwmodifyexop.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/ldapserver/pwmodifyexop.go b/pkg/ldapserver/pwmodifyexop.go
index da052c1..0e5b22e 100644
--- a/pkg/ldapserver/pwmodifyexop.go
+++ b/pkg/ldapserver/pwmodifyexop.go
@@ -87,16 +87,19 @@ func parsePasswordModifyExop(req *ber.Packet) (*ldap.PasswordModifyRequest, erro
 
 	// An absent (or empty) body of the request is valid. Translates into: "generate a new password for
 	// for the current user"
-	if req == nil {
+	if req == nil || req.Data.Len() == 0 {
 		return &pwReq, nil
 	}
 
-	inner := ber.DecodePacket(req.Data.Bytes())
-	if inner == nil {
-		return &pwReq, nil
+	if err := checkEncoding(req.Data.Bytes()); err != nil {
+		return nil, ldap.NewError(ldap.LDAPResultDecodingError, err)
+	}
+	inner, err := ber.DecodePacketErr(req.Data.Bytes())
+	if err != nil {
+		return nil, ldap.NewError(ldap.LDAPResultDecodingError, err)
 	}
 
-	if len(inner.Children) > 3 {
+	if inner.TagType != ber.TypeConstructed || len(inner.Children) > 3 {
 		return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid request"))
 	}
 
-- 
2.43.0


From adddc78dd73b4bd8b8f2b1464e85727084d7e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:54 +0000
Subject: [PATCH 29/39] fix: refuse overlong DNs

Hex-encoded values in DNs are passed to the recursive decoder, which could
be made to exhaust the memory and stop the server.
---
 pkg/ldapdn/ldapdn.go           | 17 +++++++++++++++--
 pkg/ldapserver/add.go          |  4 +++-
 pkg/ldapserver/delete.go       |  4 +++-
 pkg/ldapserver/filter.go       |  4 +++-
 pkg/ldapserver/modify.go       |  4 +++-
 pkg/ldapserver/modifydn.go     |  6 ++++--
 server/handler/ldif/handler.go |  2 +-
 7 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/pkg/ldapdn/ldapdn.go b/pkg/ldapdn/ldapdn.go
index 6cff7cc..4073178 100644
--- a/pkg/ldapdn/ldapdn.go
+++ b/pkg/ldapdn/ldapdn.go
@@ -3,6 +3,7 @@ package ldapdn
 import (
 	"bytes"
 	"encoding/hex"
+	"errors"
 
 	"github.com/go-ldap/ldap/v3"
 	"golang.org/x/text/cases"
@@ -82,11 +83,23 @@ func encodeRDNValue(rDNValue string) string {
 	return encodedBuf.String()
 }
 
-// ParseNormalize normalizes the passed LDAP DN string by first parsing it (using ldap.ParseDN)
+// maxLength is the maximum length of a DN (that of a key in the database).
+const maxLength = 32768
+
+// Parse parses the passed LDAP DN string (using ldap.ParseDN). It refuses overlong names, for
+// parsing a hex-encoded value needs a lot of memory and stack if it is nested deeply.
+func Parse(dn string) (*ldap.DN, error) {
+	if len(dn) > maxLength {
+		return nil, errors.New("DN is too long")
+	}
+	return ldap.ParseDN(dn)
+}
+
+// ParseNormalize normalizes the passed LDAP DN string by first parsing it (using Parse)
 // and then casefolding all RDN using ldapdn.Normalize(). ParseNormalize will return an error
 // when parsing the DN fails.
 func ParseNormalize(dn string) (string, error) {
-	parsed, err := ldap.ParseDN(dn)
+	parsed, err := Parse(dn)
 	if err != nil {
 		return "", err
 	}
diff --git a/pkg/ldapserver/add.go b/pkg/ldapserver/add.go
index fe61625..e284d90 100644
--- a/pkg/ldapserver/add.go
+++ b/pkg/ldapserver/add.go
@@ -7,6 +7,8 @@ import (
 
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
+
+	"github.com/libregraph/idm/pkg/ldapdn"
 )
 
 func HandleAddRequest(req *ber.Packet, boundDN string, server *Server, conn net.Conn) error {
@@ -47,7 +49,7 @@ func parseAddRequest(req *ber.Packet) (*ldap.AddRequest, error) {
 		return nil, ldap.NewError(ldap.LDAPResultProtocolError, errors.New("error decoding entry DN"))
 	}
 
-	_, err := ldap.ParseDN(dn)
+	_, err := ldapdn.Parse(dn)
 	if err != nil {
 		return nil, ldap.NewError(ldap.LDAPResultProtocolError, err)
 	}
diff --git a/pkg/ldapserver/delete.go b/pkg/ldapserver/delete.go
index 7bc55a5..dd26dbe 100644
--- a/pkg/ldapserver/delete.go
+++ b/pkg/ldapserver/delete.go
@@ -7,6 +7,8 @@ import (
 
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
+
+	"github.com/libregraph/idm/pkg/ldapdn"
 )
 
 func HandleDeleteRequest(req *ber.Packet, boundDN string, server *Server, conn net.Conn) error {
@@ -44,7 +46,7 @@ func parseDeleteRequest(req *ber.Packet) (*ldap.DelRequest, error) {
 	}
 	dn := req.Data.String()
 
-	_, err := ldap.ParseDN(dn)
+	_, err := ldapdn.Parse(dn)
 	if err != nil {
 		return nil, ldap.NewError(ldap.LDAPResultProtocolError, err)
 	}
diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 8ef7fc2..e1a156e 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -10,6 +10,8 @@ import (
 
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
+
+	"github.com/libregraph/idm/pkg/ldapdn"
 	"golang.org/x/text/cases"
 )
 
@@ -163,7 +165,7 @@ func matchSubstrings(parts []*ber.Packet, v string) bool {
 
 func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPResultCode) {
 	// constrained search scope
-	parsedBaseDn, err := ldap.ParseDN(baseDN)
+	parsedBaseDn, err := ldapdn.Parse(baseDN)
 	if err != nil {
 		return false, ldap.LDAPResultOperationsError
 	}
diff --git a/pkg/ldapserver/modify.go b/pkg/ldapserver/modify.go
index 04113ca..ec92da4 100644
--- a/pkg/ldapserver/modify.go
+++ b/pkg/ldapserver/modify.go
@@ -7,6 +7,8 @@ import (
 
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
+
+	"github.com/libregraph/idm/pkg/ldapdn"
 )
 
 func HandleModifyRequest(req *ber.Packet, boundDN string, server *Server, conn net.Conn) error {
@@ -58,7 +60,7 @@ func parseModifyRequest(req *ber.Packet) (*ldap.ModifyRequest, error) {
 		return nil, ldap.NewError(ldap.LDAPResultProtocolError, errors.New("error decoding entry DN"))
 	}
 
-	_, err := ldap.ParseDN(dn)
+	_, err := ldapdn.Parse(dn)
 	if err != nil {
 		return nil, ldap.NewError(ldap.LDAPResultProtocolError, err)
 	}
diff --git a/pkg/ldapserver/modifydn.go b/pkg/ldapserver/modifydn.go
index 67b94e9..8900cde 100644
--- a/pkg/ldapserver/modifydn.go
+++ b/pkg/ldapserver/modifydn.go
@@ -7,6 +7,8 @@ import (
 
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
+
+	"github.com/libregraph/idm/pkg/ldapdn"
 )
 
 func HandleModifyDNRequest(req *ber.Packet, boundDN string, server *Server, conn net.Conn) error {
@@ -50,7 +52,7 @@ func parseModifyDNRequest(req *ber.Packet) (*ldap.ModifyDNRequest, error) {
 		return nil, ldap.NewError(ldap.LDAPResultProtocolError, errors.New("error decoding entry DN"))
 	}
 
-	_, err := ldap.ParseDN(dn)
+	_, err := ldapdn.Parse(dn)
 	if err != nil {
 		return nil, ldap.NewError(ldap.LDAPResultProtocolError, err)
 	}
@@ -61,7 +63,7 @@ func parseModifyDNRequest(req *ber.Packet) (*ldap.ModifyDNRequest, error) {
 		return nil, ldap.NewError(ldap.LDAPResultProtocolError, errors.New("error decoding entry new RDN"))
 	}
 
-	_, err = ldap.ParseDN(newRDN)
+	_, err = ldapdn.Parse(newRDN)
 	if err != nil {
 		return nil, ldap.NewError(ldap.LDAPResultProtocolError, err)
 	}
diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index 9bb6df0..7e0209b 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -516,7 +516,7 @@ func (h *ldifHandler) validateBindDN(bindDN string, conn net.Conn) error {
 
 // isInBaseDN tells if dn is the base DN or somewhere below it.
 func isInBaseDN(dn, baseDN string) bool {
-	parsed, err := ldap.ParseDN(dn)
+	parsed, err := ldapdn.Parse(dn)
 	if err != nil {
 		return false
 	}
-- 
2.43.0


From b8755cdadd779ad0c93b9519252f0012becc1def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:49 +0000
Subject: [PATCH 30/39] fix: load change records and lone version lines
 properly

boltdb load silently skipped add records and crashed on an LDIF file with
only a version line. Add records are loaded now and any other change
record is refused with an error.
---
 cmd/idmd/boltdb/load/load.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cmd/idmd/boltdb/load/load.go b/cmd/idmd/boltdb/load/load.go
index 4bbc4a8..6c2c0d7 100644
--- a/cmd/idmd/boltdb/load/load.go
+++ b/cmd/idmd/boltdb/load/load.go
@@ -9,9 +9,11 @@ import (
 	"fmt"
 	"os"
 
+	"github.com/go-ldap/ldap/v3"
 	"github.com/go-ldap/ldif"
 	"github.com/sirupsen/logrus"
 
+	"github.com/libregraph/idm/pkg/ldapentry"
 	"github.com/libregraph/idm/pkg/ldbbolt"
 )
 
@@ -62,7 +64,19 @@ func (l *LDIFLoader) Load(ldifFile string) error {
 		return err
 	}
 
-	for _, entry := range lf.AllEntries() {
+	for _, record := range lf.Entries {
+		var entry *ldap.Entry
+		switch {
+		case record == nil:
+			// Not every record has content, the version may stand alone.
+			continue
+		case record.Entry != nil:
+			entry = record.Entry
+		case record.Add != nil:
+			entry = ldapentry.EntryFromAddRequest(record.Add)
+		default:
+			return fmt.Errorf("unsupported change record in '%s', only entries can be loaded", ldifFile)
+		}
 		l.logger.Debugf("Adding '%s'", entry.DN)
 		if err := bdb.EntryPut(entry); err != nil {
 			return fmt.Errorf("error adding Entry '%s': %w", entry.DN, err)
-- 
2.43.0


From b8c89d589d4da5038226a5036e390eb1da476d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:49 +0000
Subject: [PATCH 31/39] fix: write exported LDIF so that it reads back

Names and values with leading blanks, line breaks or other unsafe
characters were written without encoding and changed on the way back.
Errors writing the output are reported now.
---
 cmd/idmd/boltdb/export/export.go | 63 +++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 10 deletions(-)

diff --git a/cmd/idmd/boltdb/export/export.go b/cmd/idmd/boltdb/export/export.go
index 773da03..2b001a5 100644
--- a/cmd/idmd/boltdb/export/export.go
+++ b/cmd/idmd/boltdb/export/export.go
@@ -6,17 +6,21 @@
 package export
 
 import (
-	"fmt"
+	"bufio"
+	"encoding/base64"
 	"os"
+	"strings"
 
 	"github.com/go-ldap/ldap/v3"
-	"github.com/go-ldap/ldif"
 	"github.com/sirupsen/logrus"
 	bolt "go.etcd.io/bbolt"
 
 	"github.com/libregraph/idm/pkg/ldbbolt"
 )
 
+// foldWidth is the maximum length of exported lines.
+const foldWidth = 76
+
 type LDIFExporter struct {
 	logger logrus.FieldLogger
 	dbFile string
@@ -59,18 +63,57 @@ func (l *LDIFExporter) Export() error {
 		return err
 	}
 
-	ld, err := ldif.ToLDIF(entries)
-	if err != nil {
+	out := bufio.NewWriter(os.Stdout)
+	for _, entry := range entries {
+		writeEntry(out, entry)
+	}
+	// Reports also the errors of earlier writes.
+	if err := out.Flush(); err != nil {
 		l.logger.Error(err)
 		return err
 	}
+	return nil
+}
 
-	output, err := ldif.Marshal(ld)
-	if err != nil {
-		l.logger.Error(err)
-		return err
+// writeEntry writes the entry as LDIF content record (RFC 2849).
+func writeEntry(w *bufio.Writer, entry *ldap.Entry) {
+	writeLine(w, "dn", entry.DN)
+	for _, attr := range entry.Attributes {
+		for _, value := range attr.Values {
+			writeLine(w, attr.Name, value)
+		}
 	}
+	w.WriteByte('\n')
+}
 
-	fmt.Print(output)
-	return nil
+// writeLine writes a single attribute value, folded into lines of limited length.
+func writeLine(w *bufio.Writer, name, value string) {
+	line := name + ": " + value
+	if !isSafe(value) {
+		line = name + ":: " + base64.StdEncoding.EncodeToString([]byte(value))
+	}
+	for len(line) > foldWidth {
+		w.WriteString(line[:foldWidth])
+		w.WriteByte('\n')
+		line = " " + line[foldWidth:]
+	}
+	w.WriteString(line)
+	w.WriteByte('\n')
+}
+
+// isSafe returns whether the value can be written without encoding. Blanks at
+// either end would get lost when reading it.
+func isSafe(value string) bool {
+	if value == "" {
+		return true
+	}
+	if strings.ContainsAny(value[:1], " :<") || value[len(value)-1] == ' ' {
+		return false
+	}
+	for i := 0; i < len(value); i++ {
+		if value[i] < ' ' || value[i] > '~' {
+			return false
+		}
+	}
+	return true
 }
-- 
2.43.0


From a13a06a156ad69a7595882562a50e460fd9f2936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:26 +0000
Subject: [PATCH 32/39] fix: write the last bytes of files included by LDIF
 templates

The base64 encoder was never closed, so up to two bytes at the end of an
included file were lost.
---
 server/handler/ldif/template.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/handler/ldif/template.go b/server/handler/ldif/template.go
index 846ffb1..72a46d1 100644
--- a/server/handler/ldif/template.go
+++ b/server/handler/ldif/template.go
@@ -112,6 +112,10 @@ func TemplateFuncs(m map[string]interface{}, options *Options) template.FuncMap
 			if n > formatAsFileSizeLimit {
 				return "", fmt.Errorf("LDIF template formatAsFile size limit exceeded: %s", fn)
 			}
+			// Flush the remaining partial block.
+			if err := encoder.Close(); err != nil {
+				return "", fmt.Errorf("LDIF template formatAsFile error: %w", err)
+			}
 
 			return buf.String(), nil
 		},
-- 
2.43.0


From 0fb90742b1ce5e739f17f35098598763188a9145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:26 +0000
Subject: [PATCH 33/39] fix: read LDIF templates with long lines and folded
 comments

A line of more than 64 KiB silently ended the template. The continuation
of a comment was taken for the continuation of the line before it.
---
 server/handler/ldif/ldif.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 1a77222..58acdb4 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -6,7 +6,6 @@
 package ldif
 
 import (
-	"bufio"
 	"bytes"
 	"fmt"
 	"io"
@@ -95,16 +94,25 @@ func parseLDIFDirectory(pn string, options *Options) (*ldif.LDIF, []error, error
 // parseLDIFTemplate exectues the provided text template and then parses the
 // result as LDIF.
 func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{}) (io.Reader, error) {
-	scanner := bufio.NewScanner(r)
-	scanner.Split(bufio.ScanLines)
+	// NOTE: Lines can be of any length, thus no bufio.Scanner here.
+	data, err := io.ReadAll(r)
+	if err != nil {
+		return nil, fmt.Errorf("failed to read LDIF template: %w", err)
+	}
 	var text []string
-	for scanner.Scan() {
-		t := scanner.Text()
-		if t != "" && t[0] == '#' {
+	comment := false
+	for _, t := range strings.Split(string(data), "\n") {
+		t = strings.TrimSuffix(t, "\r")
+		if comment && t != "" && t[0] == ' ' {
+			// Ignore continuation of commented line.
+			continue
+		}
+		comment = t != "" && t[0] == '#'
+		if comment {
 			// Ignore commented lines.
 			continue
 		}
-		text = append(text, scanner.Text())
+		text = append(text, t)
 	}
 
 	if m == nil {
-- 
2.43.0


From 367a02fe27c6238899e9ac4209f7664ae67606df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:26 +0000
Subject: [PATCH 34/39] fix: include files relative to the LDIF configuration

Includes of the configuration template were resolved in the folder of the
main LDIF instead of its own.
---
 server/handler/ldif/middleware.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/handler/ldif/middleware.go b/server/handler/ldif/middleware.go
index ca6404f..917c662 100644
--- a/server/handler/ldif/middleware.go
+++ b/server/handler/ldif/middleware.go
@@ -80,7 +80,9 @@ func (h *ldifMiddleware) parse() (*ldifMemoryValue, error) {
 	}
 
 	h.logger.Debugln("loading LDIF")
-	l, err := parseLDIFFile(h.fn, h.options)
+	options := *h.options
+	options.templateBasePath = filepath.Dir(h.fn)
+	l, err := parseLDIFFile(h.fn, &options)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 428e9dc15ffa504c161401a0bbe31d04b8b32bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:13 +0000
Subject: [PATCH 35/39] fix: generate valid records for all users of a list

- Lines with too few fields crashed the command, overlong ones and all
  behind them were dropped silently.
- A user or group number of zero was replaced or omitted.
- Names and values with special characters did not survive, an empty
  full name gave a record that cannot be loaded.
---
 cmd/idmd/gen/newusers/newusers.go    | 34 ++++++++++-------
 cmd/idmd/gen/newusers/output_ldif.go | 57 ++++++++++++++++++++++++++--
 2 files changed, 75 insertions(+), 16 deletions(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 4c0f135..2b636e7 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -33,28 +33,26 @@ var (
 )
 
 var DefaultLDIFUserTemplate = `<<- /* */ ->>
-dn: uid=<<.entry.Name>>,<<.BaseDN>>
+dn: uid=<<formatAsDNValue .entry.Name>>,<<.BaseDN>>
 objectClass: posixAccount
 objectClass: top
 objectClass: inetOrgPerson
-uid: <<.entry.Name>>
-uidNumber: <<with .detail.uidNumber>><<.>><<else>><<AutoIncrement>><<end>>
-<<- with .detail.gidNumber>>
-gidNumber: <<.>>
-<<- end>>
+<<formatAsLine "uid" .entry.Name>>
+uidNumber: <<.detail.uidNumber>>
+gidNumber: <<.detail.gidNumber>>
 <<- with .detail.userPassword>>
-userPassword: <<.>>
+<<formatAsLine "userPassword" .>>
 <<- end>>
-mail: <<.entry.Name>>@{{.MailDomain}}
+<<formatAsMailLine "mail" .entry.Name>>
 <<- range .detail.mail>>
-mailAlternateAddress: <<.>>
+<<.>>
 <<- end>>
-cn: <<.detail.cn>>
+<<formatAsLine "cn" .detail.cn>>
 <<- with .detail.givenName>>
-givenName: <<.>>
+<<formatAsLine "givenName" .>>
 <<- end>>
 <<- with .detail.sn>>
-sn: <<.>>
+<<formatAsLine "sn" .>>
 <<- end>>
 `
 
@@ -123,6 +121,9 @@ func newusers(cmd *cobra.Command, args []string) error {
 	}
 }
 
+// maxLineLength is the maximum length of an input line in bytes.
+const maxLineLength = 16 * 1024 * 1024
+
 type entry struct {
 	line uint64
 	raw  string
@@ -138,6 +139,7 @@ type entry struct {
 
 func parsePasswdFile(r io.Reader) ([]*entry, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, maxLineLength)
 
 	var results []*entry
 	var count uint64
@@ -154,9 +156,12 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 
 		// pw_name:pw_passwd:pw_uid:pw_gid:pw_gecos:pw_dir:pw_shell
 		parts := strings.Split(line, ":")
-		if len(parts) < 5 {
+		if len(parts) < 7 {
 			return nil, fmt.Errorf("not enough fields in line %d", count)
 		}
+		if parts[0] == "" {
+			return nil, fmt.Errorf("no name in line %d", count)
+		}
 		e := &entry{
 			line: count,
 			raw:  line,
@@ -179,6 +184,9 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 		results = append(results, e)
 
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read line %d: %w", count+1, err)
+	}
 
 	return results, nil
 }
diff --git a/cmd/idmd/gen/newusers/output_ldif.go b/cmd/idmd/gen/newusers/output_ldif.go
index ab862ea..8f03273 100644
--- a/cmd/idmd/gen/newusers/output_ldif.go
+++ b/cmd/idmd/gen/newusers/output_ldif.go
@@ -6,17 +6,64 @@
 package newusers
 
 import (
+	"encoding/base64"
 	"fmt"
 	"io"
 	"os"
 	"strconv"
 	"strings"
 	"text/template"
+	"unicode"
+
+	"github.com/go-ldap/ldap/v3"
 
 	"github.com/libregraph/idm/pkg/ldappassword"
 	"github.com/libregraph/idm/server/handler/ldif"
 )
 
+// lineFuncs are the functions to output values in a way that they are read
+// back unchanged from the generated LDIF template.
+var lineFuncs = template.FuncMap{
+	"formatAsLine":     formatAsLine,
+	"formatAsMailLine": formatAsMailLine,
+	"formatAsDNValue": func(value string) string {
+		return escapeTemplate(ldap.EscapeDN(value))
+	},
+}
+
+// formatAsLine returns the LDIF line for the provided attribute and value.
+func formatAsLine(name, value string) string {
+	if !isSafe(value) {
+		return name + ":: " + base64.StdEncoding.EncodeToString([]byte(value))
+	}
+	return name + ": " + escapeTemplate(value)
+}
+
+// formatAsMailLine returns the LDIF line for the provided attribute and the
+// mail address with the provided local part at the templates mail domain.
+func formatAsMailLine(name, local string) string {
+	if !isSafe(local + "@") {
+		return fmt.Sprintf("%s:: {{print %q .MailDomain | formatAsBase64}}", name, local+"@")
+	}
+	return name + ": " + escapeTemplate(local) + "@{{.MailDomain}}"
+}
+
+// escapeTemplate returns the provided value with template syntax escaped.
+func escapeTemplate(value string) string {
+	return strings.ReplaceAll(value, "{{", `{{"{{"}}`)
+}
+
+// isSafe returns true if the provided value can be used in LDIF as it is.
+func isSafe(value string) bool {
+	if value == "" {
+		return false
+	}
+	if strings.IndexByte(" :<", value[0]) >= 0 || value[len(value)-1] == ' ' {
+		return false
+	}
+	return strings.IndexFunc(value, unicode.IsControl) < 0
+}
+
 func outputLDIF(r io.Reader) error {
 	entries, err := parsePasswdFile(r)
 	if err != nil {
@@ -60,7 +107,7 @@ func outputLDIF(r io.Reader) error {
 	}
 
 	m := map[string]interface{}{}
-	tpl, err := template.New("tpl").Delims("<<", ">>").Funcs(ldif.TemplateFuncs(m, options)).Parse(DefaultLDIFUserTemplate)
+	tpl, err := template.New("tpl").Delims("<<", ">>").Funcs(ldif.TemplateFuncs(m, options)).Funcs(lineFuncs).Parse(DefaultLDIFUserTemplate)
 	if err != nil {
 		panic(err)
 	}
@@ -85,7 +132,9 @@ func outputLDIF(r io.Reader) error {
 			// full name,building,office phone,home phone,other...
 			gecosParts := strings.Split(entry.Gecos, ",")
 			fields := len(gecosParts)
-			if fields > 0 {
+			if gecosParts[0] == "" {
+				detail["cn"] = entry.Name
+			} else {
 				detail["cn"] = gecosParts[0]
 				nameParts := strings.SplitN(gecosParts[0], " ", 2)
 				if len(nameParts) == 2 {
@@ -98,7 +147,9 @@ func outputLDIF(r io.Reader) error {
 				for _, value := range gecosParts[1:] {
 					if isValidEmail(value) {
 						if options.DefaultMailDomain != "" && strings.HasSuffix(value, "@"+options.DefaultMailDomain) {
-							value = strings.TrimSuffix(value, "@"+options.DefaultMailDomain) + "@{{.MailDomain}}"
+							value = formatAsMailLine("mailAlternateAddress", strings.TrimSuffix(value, "@"+options.DefaultMailDomain))
+						} else {
+							value = formatAsLine("mailAlternateAddress", value)
 						}
 						mail = append(mail, value)
 					}
-- 
2.43.0


From b2c2c49a61c844a4f84aa095bae9ae0a5e1220c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:13 +0000
Subject: [PATCH 36/39] fix: print generated password values unaltered

The value was used as format string, so percent signs were mangled.
---
 cmd/idmd/gen/passwd/passwd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/idmd/gen/passwd/passwd.go b/cmd/idmd/gen/passwd/passwd.go
index 1499a63..cacff25 100644
--- a/cmd/idmd/gen/passwd/passwd.go
+++ b/cmd/idmd/gen/passwd/passwd.go
@@ -141,9 +141,9 @@ func passwd(cmd *cobra.Command, args []string) error {
 		return err
 	}
 
-	fmt.Fprintf(os.Stdout, hash)
+	fmt.Fprint(os.Stdout, hash)
 	if !OmitTrailingNewline {
-		fmt.Fprintf(os.Stdout, "\n")
+		fmt.Fprintln(os.Stdout)
 	}
 	return nil
 }
-- 
2.43.0


From 2c095b0ddb2c300f1e60cc274b523bbcc350232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:13 +0000
Subject: [PATCH 37/39] fix: verify passwords by all of their bytes and bounded
 memory

For CRYPT everything behind a NUL character was ignored. An ARGON2 value
asking for more memory than available ended the process.
---
 pkg/ldappassword/ldappassword.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index 7da4cfd..f014ec3 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -20,6 +20,10 @@ import (
 
 var Argon2DefaultParams = argon2id.DefaultParams
 
+// argon2MaxMemory is the maximum amount of memory in Kibibytes a hash is
+// allowed to require for its verification.
+const argon2MaxMemory = 4 * 1024 * 1024
+
 func Validate(password string, hash string) (bool, error) {
 	if hash == "" {
 		return false, fmt.Errorf("no password set")
@@ -45,6 +49,13 @@ func Validate(password string, hash string) (bool, error) {
 	case "{ARGON2}":
 		// Follows the format used by the Argon2 reference C implementation and looks like this:
 		// $argon2id$v=19$m=65536,t=3,p=2$c29tZXNhbHQ$RdescudvJCsgt3ub+b+dWRWJTmaaJObG
+		params, _, _, err := argon2id.DecodeHash(hash)
+		if err != nil {
+			return false, fmt.Errorf("argon2 error: %w", err)
+		}
+		if params.Memory > argon2MaxMemory {
+			return false, fmt.Errorf("argon2 error: memory limit exceeded")
+		}
 		match, err := argon2id.ComparePasswordAndHash(password, hash)
 		if err != nil {
 			return false, fmt.Errorf("argon2 error: %w", err)
@@ -58,6 +69,10 @@ func Validate(password string, hash string) (bool, error) {
 		if len(hash) < 2 {
 			return false, fmt.Errorf("crypt error: hash too short")
 		}
+		if strings.IndexByte(password, 0) >= 0 {
+			// Everything from there on would be ignored.
+			return false, fmt.Errorf("crypt error: password contains a NUL character")
+		}
 		// By default the salt is a two character string.
 		salt := hash[:2]
 		if hash[0] == '$' {
-- 
2.43.0


From b89e3a2bd6f10d4f5e64cee1bfac94250c0cf1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:22 +0000
Subject: [PATCH 38/39] fix: keep reload signals from hiding a signal to stop

A SIGTERM or SIGINT that arrived while a SIGHUP was still waiting in the
shared channel was dropped, and the server went on running. Reload signals
now have their own channel.

The signals are also asked for before the listeners are started. Until now a
SIGHUP right after the server began to accept connections ended the process.
---
 server/server.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/server/server.go b/server/server.go
index ecbd250..b68a6a5 100644
--- a/server/server.go
+++ b/server/server.go
@@ -115,6 +115,7 @@ func (s *Server) Serve(ctx context.Context) error {
 	errCh := make(chan error, 2)
 	exitCh := make(chan struct{}, 1)
 	signalCh := make(chan os.Signal, 1)
+	reloadCh := make(chan os.Signal, 1)
 	readyCh := make(chan struct{}, 1)
 	triggerCh := make(chan bool, 1)
 
@@ -127,6 +128,12 @@ func (s *Server) Serve(ctx context.Context) error {
 		logger.WithFields(logrus.Fields{}).Infoln("ready")
 	}()
 
+	// Ask for the signals before anything is served, they would end the process
+	// otherwise. Reload signals have a channel of their own, a pending reload
+	// must not be the reason to miss a signal to stop.
+	signal.Notify(signalCh, syscall.SIGINT, syscall.SIGTERM)
+	signal.Notify(reloadCh, syscall.SIGHUP)
+
 	var serversWg sync.WaitGroup
 
 	// NOTE(rhafer): since v3.4.3 the ldap package allows to set a custom logger.
@@ -201,20 +208,17 @@ func (s *Server) Serve(ctx context.Context) error {
 
 	// Wait for exit or error, with support for HUP to reload
 	err = func() error {
-		signal.Notify(signalCh, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
 		for {
 			select {
 			case errFromChannel := <-errCh:
 				return errFromChannel
-			case reason := <-signalCh:
-				if reason == syscall.SIGHUP {
-					logger.Infoln("reload signal received")
-					select {
-					case triggerCh <- true:
-					default:
-					}
-					continue
+			case <-reloadCh:
+				logger.Infoln("reload signal received")
+				select {
+				case triggerCh <- true:
+				default:
 				}
+			case reason := <-signalCh:
 				logger.WithField("signal", reason).Warnln("received signal")
 				return nil
 			}
-- 
2.43.0


From 411de952b5e31ca0e081772c9b70d1490a4044be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:40 +0000
Subject: [PATCH 39/39] fix: do not end a paged search early after a long pause

A paged search waits one minute for the client to ask for more. If the client
took longer the answer could look like a regular end although results were
missing. Refuse to continue instead.
---
 server/handler/ldif/handler.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index 7e0209b..6410aab 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -324,6 +324,7 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 	}
 
 	var entryRecord *ldifEntry
+	var delivered bool
 	var entries []*ldap.Entry
 	var entry *ldap.Entry
 	var count uint32
@@ -331,8 +332,14 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 results:
 	for {
 		select {
-		case entryRecord = <-pumpCh:
+		case entryRecord, delivered = <-pumpCh:
 			if entryRecord == nil {
+				if pagingControl != nil && pagingControl.PagingSize > 0 && !delivered {
+					// The pump gave up before its end, results would be missing.
+					return ldapserver.ServerSearchResult{
+						ResultCode: ldap.LDAPResultUnwillingToPerform,
+					}, errors.New("search paging ended")
+				}
 				// All done, set cookie to empty.
 				if pagingControl != nil {
 					h.activeSearchPagings.Remove(string(pagingControl.Cookie))
@@ -481,12 +488,17 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 	if load {
 		// Walk through all entries (this is slow).
 		h.logger.WithField("filter", searchReq.Filter).Warnln("ldap search filter does not match any index, using slow walk")
+		stopped := false
 		current.t.WalkSuffix([]byte(searchBaseDN), func(key []byte, entryRecord interface{}) bool {
 			if ok := pump(entryRecord.(*ldifEntry)); !ok {
+				stopped = true
 				return true
 			}
 			return false
 		})
+		if stopped {
+			return
+		}
 	}
 
 	if pagingControl != nil {
-- 
2.43.0

