#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to review and diff)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["LDAP responses on the wire"]
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

H = "server/handler/boltdb/handler.go"; D = "pkg/ldbbolt/ldbbolt.go"; S = "pkg/ldapserver/server.go"
E = "pkg/ldapentry/ldapentry.go"; F = "pkg/ldapserver/filter.go"; L = "server/handler/ldif/handler.go"
DB = ("the directory database", "entries, the name index and the child index held in the database file", D)

p("C01", "Only the configured administrator can change the directory",
  "With the database backend, an add, delete, modify or rename request changes the directory only if the connection it arrives on is bound as the configured administrator; every such request from an anonymous or other connection is refused with insufficientAccessRights (or a protocol error if it is malformed) and leaves every stored entry as it was. When no administrator is configured nobody can change the directory. Only the password of an entry may also be changed by its own owner, through the password modify operation.",
  ["histories", "inputs", "configurations"],
  "Any sequence of binds and write requests, on any number of connections, by any identity (anonymous, ordinary users, users whose names resemble the administrator's, the administrator under any spelling of its name), with and without an administrator configured.",
  "Existing tests call the storage layer directly or use a stub handler; no test connects an authorisation decision with the resulting stored state, and none covers sequences of binds.",
  [H, S, "pkg/ldapserver/add.go", "pkg/ldapserver/delete.go", "pkg/ldapserver/modify.go", "pkg/ldapserver/modifydn.go"],
  [("write permission test", H + ":writeAllowed"), ("anonymous writes are rejected in the frontend", "pkg/ldapserver/*.go Handle*Request")],
  [("bound identity", "normalised DN of the identity a connection is bound as", S + ":handleConnection"), DB],
  ["LDAP result codes", "the database file after each request"])

p("C02", "A bind succeeds only with the current password of an existing entry",
  "A simple bind to a name succeeds exactly when that entry exists in the served directory (or in the bind-only configuration data) and the presented, non-empty password matches the password stored for it at that moment, whatever supported storage scheme is used. A bind with an empty password, to a missing entry, to an entry without a password, with a malformed or undecodable stored hash, or outside the base is never successful.",
  ["inputs", "histories", "configurations"],
  "All stored password forms (clear text, salted SHA-1, crypt variants, Argon2, corrupted ones), all presented passwords related to them (equal, prefix, extension, other case, the stored hash itself, empty), all backends, before and after password changes and renames.",
  "There is no test of the bind path nor of the password package at all.",
  [H, L, "server/handler/ldif/middleware.go", "pkg/ldappassword/ldappassword.go", "pkg/ldappassword/crypt.go", "pkg/ldapserver/bind.go"],
  [("password validation", "pkg/ldappassword/ldappassword.go:Validate"), ("bind handler of the database backend", H + ":Bind"), ("bind handlers of the LDIF backend", L + ":Bind, server/handler/ldif/middleware.go:Bind")],
  [DB])

p("C03", "A connection acts as the identity of its own latest bind",
  "Every request is authorised as the identity established by the most recent bind on the same connection: a successful bind switches to that identity, a failed bind leaves the connection anonymous, and a new connection starts anonymous. Binds on one connection never influence another connection.",
  ["histories", "schedules"],
  "All interleavings of successful, failed, anonymous and repeated binds with identity-dependent requests on several simultaneous connections, including closing and reopening connections.",
  "No test opens two connections or binds twice; identity is only observable through later requests.",
  [S, "pkg/ldapserver/bind.go", H], [("per connection identity", S + ":handleConnection boundDN")],
  [("bound identity", "identity of a connection", S + ":handleConnection")])

p("C04", "The stored directory is always one well formed tree",
  "After any history of requests, the stored entries form a single tree below the configured base: every entry other than the base has its parent present, no two entries have the same name, and the name index, the child index and the entry store describe exactly the same set of entries. Nothing is ever stored outside the base, and identifiers of removed entries are never reused for another entry.",
  ["histories", "inputs"],
  "All histories of add, delete, modify, rename and password change, accepted or refused, over names inside and outside the base, at any depth, including the base entry itself, names that merely end with the same characters as the base, and reopening the database in between.",
  "The existing tests make a handful of single calls on a fixed four-entry tree and never look at the indexes afterwards.",
  [D], [("each mutation is one transaction over the three indexes", D + ":EntryPut, EntryDelete, EntryModifyDN"), ("leaf and parent checks", D + ":EntryDelete, addID2Children")],
  [DB], ["the database file after each request"])

p("C05", "Add and delete take effect exactly as answered",
  "An add by the administrator succeeds exactly when no entry of that name exists and its parent exists (or it is the base entry), and then the entry has exactly the given attributes and values; if the name is taken the answer is entryAlreadyExists. A delete succeeds exactly when the entry exists, has no children and is not the base entry, and removes just that entry; any request answered with an error leaves the directory unchanged.",
  ["histories", "inputs"],
  "All histories of adds and deletes of leaf and non-leaf entries at any depth, re-adding deleted names, deleting after children were removed or renamed, many siblings, entries with many or large values.",
  "Existing tests cover one add and one delete outcome each on a fixed tree.",
  [D, H, "pkg/ldapserver/add.go", "pkg/ldapserver/delete.go", E], [("storage operations", D + ":EntryPut, EntryDelete"), ("conversion of the request", E + ":EntryFromAddRequest")],
  [DB], ["LDAP result codes", "the database file after each request"])

p("C06", "Modify applies its changes in order and all or nothing",
  "A modify request by the administrator applies its list of add, replace and delete changes one after the other, each to the result of the previous ones, comparing attribute names and values without regard to case; attributes not named keep their values byte for byte, and an attribute left without values disappears. A change that would take away a value of the entry's own relative name makes the whole request fail with notAllowedOnRDN. If any part fails the entry stays exactly as it was.",
  ["inputs", "histories"],
  "All change lists of bounded length over present and absent attributes, single and multiple values, case variants, values of the naming attribute, repeated changes to one attribute, applied to entries reached by arbitrary histories.",
  "Existing tests apply lists with a single change; ordering effects and failure after a partial list are never exercised.",
  [E, D, "pkg/ldapserver/modify.go"], [("application of the change list", E + ":ApplyModify"), ("transaction", D + ":EntryModify")],
  [DB], ["LDAP result codes", "the database file after each request"])

p("C07", "Rename moves one leaf entry and loses nothing",
  "A rename by the administrator succeeds only for an existing entry other than the base that has no children and whose new name is free; afterwards the entry is found under the new name below the same parent and no longer under the old one. All its attributes are kept, the values of the new relative name are present, the values of the old relative name are removed exactly when that was requested, and all other entries are untouched; a refused rename changes nothing.",
  ["histories", "inputs"],
  "All histories with renames of leaf, non-leaf, missing and base entries, single and multi-valued relative names, changed attribute types, case-only changes, occupied targets, with and without removal of the old value, rename back and forth, followed by adds and deletes below and beside.",
  "Existing tests rename one entry four times; they check presence under the new name but not attribute preservation, indexes, or follow-up operations.",
  [D, E, "pkg/ldapserver/modifydn.go"], [("rename transaction", D + ":EntryModifyDN")],
  [DB], ["LDAP result codes", "the database file after each request"])

p("C08", "All spellings of a name denote the same entry, others never do",
  "With the database backend, names that differ only in letter case, optional white space around separators or the way special characters are escaped denote the same entry in every operation (bind, search base, add, delete, modify, rename, password change, configured base and administrator). Names that differ in any other way denote different entries, whatever special or non-ASCII characters they contain.",
  ["inputs", "histories"],
  "All names built from an alphabet with every character that has a special meaning in names (separators, quotes, backslash, hash, angle brackets, equals sign, leading and trailing blanks, control and non-ASCII characters), each in many spellings, used across all operations.",
  "The existing tests check the normalisation of six fixed strings.",
  ["pkg/ldapdn/ldapdn.go", D, H, S], [("normalisation", "pkg/ldapdn/ldapdn.go:ParseNormalize"), ("every index access uses the normalised name", D)],
  [DB])

p("C09", "A search returns exactly the entries in scope that match, each once",
  "With the database backend an authorised search answers with each entry that lies in the requested scope below the requested base and matches the filter, exactly once, and with no other entry, as of one point in time. Base scope yields only the base entry itself, single-level only its immediate children, subtree the base entry and everything below; a search below a missing entry yields none.",
  ["inputs", "histories"],
  "All trees reached by arbitrary histories, all search bases (present, missing, any spelling), all three scopes, all names including those with escaped separators.",
  "Existing tests check the storage layer on a fixed tree with plain names and the scope function on single entries.",
  [D, F, "pkg/ldapserver/search.go", H], [("traversal of the child index", D + ":Search"), ("scope filter in the frontend", F + ":ServerFilterScope")], [DB])

p("C10", "Search filters are evaluated according to their meaning",
  "A search returns an entry if and only if the filter is true for it: equality and presence per attribute, substring patterns with all of their initial, inner and final parts in order, and arbitrary nesting of and, or and not, always comparing attribute names and values without regard to case. This holds for both backends, with and without indexes.",
  ["inputs"],
  "All filters up to a bounded depth over all supported filter kinds, with values containing special characters and case variants, against entries with absent, single-valued and multi-valued attributes.",
  "Existing tests evaluate about twenty fixed filters, none with more than one substring part or against multi-valued attributes.",
  [F, "pkg/ldapserver/search.go", "server/handler/ldif/filter.go"], [("filter evaluation", F + ":ServerApplyFilter")])

p("C11", "Answers carry just the requested attributes and honour the size limit",
  "Each returned entry carries exactly those of its attributes that were requested (all of them when none or \"*\" is requested, none for \"1.1\"), each attribute once and with all of its stored values unchanged; asking for attributes never changes which entries are returned. No more entries than the requested size limit are returned, and the database backend reports sizeLimitExceeded exactly when further matching entries were held back.",
  ["inputs", "histories"],
  "All attribute lists (empty, wildcards, duplicates, case variants, unknown names, mixed) and all size limits around the number of matches, on trees reached by arbitrary histories.",
  "Only two fixed attribute lists and no size limit are tested.",
  [F, "pkg/ldapserver/search.go"], [("attribute selection", F + ":ServerFilterAttributes"), ("size limit", "pkg/ldapserver/search.go")])

p("C12", "LDIF search results do not depend on the indexes",
  "With the LDIF backend a search returns exactly the entries in scope that match the filter, whichever indexes exist: for every filter the result is the same as examining every entry below the search base.",
  ["inputs", "configurations"],
  "All filters up to a bounded depth mixing indexed and unindexed attributes, object class tests, negation, presence and substring tests and letter case variants, against all small data sets and all choices of search base and scope.",
  "The LDIF backend has no tests.",
  [L, "server/handler/ldif/index.go", "server/handler/ldif/filter.go"], [("candidate selection through indexes", L + ":searchEntriesPump"), ("index", "server/handler/ldif/index.go"), ("extraction of index terms from a filter", "server/handler/ldif/filter.go")],
  [("attribute index", "maps attribute terms to entries", "server/handler/ldif/index.go")])

p("C13", "A paged search delivers every match exactly once and then ends",
  "With the LDIF backend, following the pages of a paged search to the end yields each matching entry exactly once, every page has at most the requested number of entries, and the end is signalled by an empty cookie without an error, also when the matches fill the last page exactly. Abandoning a paged search (page size zero) is answered at once, and an unknown, finished or abandoned cookie is refused rather than starting over or hanging.",
  ["histories", "schedules", "inputs"],
  "All numbers of matches around multiples of the page size, changing page sizes, several paged searches interleaved on several connections, abandoning, reusing and inventing cookies, reloads of the data between pages.",
  "The LDIF backend has no tests; paging involves a producer running concurrently with the requests.",
  [L], [("producer with cookie registry", L + ":Search, searchEntriesPump")],
  [("paging registry", "maps a cookie to the producer of the remaining entries", L + ":activeSearchPagings")])

p("C14", "LDIF reload switches the data at once, or not at all",
  "When asked to reload, the LDIF backend either serves the new data completely or, if the new files cannot be read or parsed, keeps serving the previous data unchanged. Every search (including a paged one already begun) and every bind is answered from one single version of the data, never a mixture, and no request fails because of a concurrent reload.",
  ["histories", "schedules", "fault_sequences"],
  "All sequences of replacing the files by valid, unparseable, duplicate-entry or missing ones and reloading, concurrently with binds, searches and paged searches.",
  "The LDIF backend has no tests; the property concerns concurrency and failure of the reload.",
  [L, "server/handler/ldif/middleware.go", "server/server.go"], [("snapshot swapped atomically after successful parsing", L + ":open, Reload")],
  [("current snapshot", "tree and index being served", L + ":current")])

p("C15", "LDIF data is read-only and never reveals passwords or bind-only entries",
  "With the LDIF backend every add, delete, modify, rename and password change is refused for every identity and changes nothing. No search, whatever its filter or attribute list, returns a password or lets its result depend on one, and entries of the bind-only configuration file can be bound to but never appear in a search result.",
  ["inputs", "histories"],
  "All requests by all identities, all attribute lists and filters naming the password attribute, entries present only in the configuration file, only in the main file, or in both.",
  "The LDIF backend has no tests.",
  [L, "server/handler/ldif/middleware.go", "server/handler/ldif/ldif.go"], [("passwords are removed from the served entries when loading", "server/handler/ldif/ldif.go:treeFromLDIF"), ("write operations refuse", L)])

p("C16", "Concurrent clients see one consistent order of operations",
  "Operations of any number of simultaneous clients on the database backend take effect as if executed one at a time, in an order that respects the order of non-overlapping requests: each answer and each search result is what that order produces, and the final directory is the result of exactly the acknowledged changes.",
  ["schedules", "histories"],
  "All interleavings of concurrent adds, deletes, modifies, renames, password changes, binds and searches on overlapping entries.",
  "No test runs two operations concurrently.",
  [D, H, S], [("serialised write transactions and snapshot reads", D)], [DB])

p("C17", "Acknowledged changes survive crashes, unfinished ones leave no trace",
  "If the server stops at any moment, also through a power failure that loses everything not yet forced to disk, then after a restart the directory contains every change that was acknowledged, and each unacknowledged change either completely or not at all; the restarted server serves a well formed directory. If writing to disk fails, the request is answered with an error, earlier changes are intact and the server keeps answering.",
  ["crash_points", "fault_sequences", "histories"],
  "Every point between two disk operations of every mutating request, with any subset of the not yet synchronised writes reaching the disk; every single failing write or synchronisation.",
  "No test restarts on an existing database or injects a fault.",
  [D, H], [("one synchronous transaction per request", D + ":Entry*, UpdatePassword"), ("reply after commit", S)],
  [DB], ["the database file reconstructed at every crash point", "LDAP result codes"])

p("C18", "Password change: right person, right password, effective at once",
  "The password modify operation changes exactly the password of exactly the addressed entry (by default the requester's own) and only for an authenticated requester that is the entry's owner or the administrator; if an old password is supplied it must be the current one. After success binds succeed with the new password and no longer with the old one; if no new password was given, the generated one is returned and works, and a refused request changes nothing and is answered with an error.",
  ["histories", "inputs", "configurations"],
  "All requesters (anonymous, owner, other user, administrator), all targets (self, other, missing, without password, any spelling), all combinations of right, wrong, absent old and given, absent new passwords, interleaved with binds and other changes.",
  "Existing tests cover request decoding and a stub handler; not authorisation, effect or the returned password.",
  ["pkg/ldapserver/pwmodifyexop.go", "pkg/ldapserver/extended.go", H, D], [("owner or administrator test", H + ":ModifyPasswordExop"), ("old password test and update in one transaction", D + ":UpdatePassword")],
  [DB])

p("C19", "Each request gets exactly one answer of its kind, in order",
  "On every connection each request other than unbind is answered by exactly one final response carrying the request's message number and the response type belonging to the request, in the order of the requests, also when requests are sent without waiting; search entries precede their own final response and carry its number. Requests the server does not support are answered with an error or end the connection, never with success or silence.",
  ["inputs", "histories"],
  "All sequences of supported and unsupported operations, accepted and refused, pipelined or not, with any message numbers, on both backends, with statistics collection on or off.",
  "Only single request/response pairs through a client library with fixed numbering are tested.",
  [S, "pkg/ldapserver/search.go", "pkg/ldapserver/extended.go", "pkg/ldapserver/bind.go"], [("request loop", S + ":handleConnection")])

p("C20", "No client input stops the service for others",
  "Whatever bytes a client sends, authenticated or not, well formed or not, and however it disconnects, the server process keeps running, other connections keep being answered, and new connections are accepted. The offending connection is answered or closed, never left hanging, and the directory is not changed by malformed requests.",
  ["inputs", "histories"],
  "All requests of bounded size: well formed ones with unusual content (empty names, empty relative names, absent parts, entries without passwords), structurally altered ones at every position, and truncated ones, before and after authentication, on both backends.",
  "The existing tests send well formed requests only.",
  [S, "pkg/ldapserver/bind.go", "pkg/ldapserver/modify.go", "pkg/ldapserver/extended.go", "pkg/ldapserver/search.go", "pkg/ldappassword/ldappassword.go"], [("decoding checks", "pkg/ldapserver")],
  None, ["liveness of a second connection", "process exit"])

p("C21", "Nothing can be read without authentication unless explicitly allowed",
  "A connection that has not successfully authenticated gets no entry from any search. Only if local anonymous access was enabled may an anonymous connection bind without credentials and read, and then only from a loopback address.",
  ["configurations", "histories", "inputs"],
  "Both backends, local anonymous access on and off, client addresses of every kind (loopback IPv4 and IPv6, private, public), all searches, before any bind, after failed and anonymous binds.",
  "No test searches through a real backend without binding or from a non-loopback address.",
  [H, L, S], [("anonymous bind policy", H + ":Bind"), ("identity check before searching", L + ":validateBindDN")])

p("C22", "Loading and exporting a directory loses and invents nothing",
  "Loading an LDIF file into the database stores exactly its entries, and exporting a directory writes every entry with every attribute and value unchanged, parents before children, so that loading an export into an empty database reproduces the same directory. Entries that cannot be loaded are reported and never silently skipped.",
  ["inputs", "histories"],
  "All directories of bounded size: deep and wide trees, values with blanks, line breaks, non-ASCII and binary content, long values, names with special characters, also after arbitrary histories of changes.",
  "The load and export commands have no tests.",
  ["cmd/idmd/boltdb/load/load.go", "cmd/idmd/boltdb/export/export.go", D], [("parent before child traversal", D + ":Search"), ("one add per entry", "cmd/idmd/boltdb/load/load.go")],
  [DB], ["exit code and output of the commands", "the database file"])

p("C23", "Published usage counters tell the truth",
  "With metrics enabled, the counters of binds, unbinds, searches, adds, deletes, modifies and renames equal the number of such requests received, the connection counters equal the number of connections opened, closed and currently open and the largest number simultaneously open; collecting them never blocks or alters the handling of requests.",
  ["histories", "schedules"],
  "All sequences and interleavings of requests and connection openings and closings on several connections.",
  "Statistics are not enabled in any test.",
  ["pkg/ldapserver/stats.go", "server/metrics.go", S], [("counting under a lock", "pkg/ldapserver/stats.go")],
  [("statistics", "request and connection counters", "pkg/ldapserver/stats.go")], ["published metrics", "LDAP responses on the wire"])

p("C24", "Generated user records have unique numbers and intact fields",
  "Turning a list of users into directory records yields exactly one record per valid line with its name, numbers, common name and mail addresses, never gives the same user number to two users of one run unless both lines state it explicitly, keeps explicitly stated numbers, and produces passwords that verify against the given ones. A malformed line is reported as an error, never as a crash or a silently dropped user.",
  ["inputs"],
  "All lists of bounded length mixing explicit and automatic numbers in any order, empty, given and hashed passwords, absent optional fields, malformed lines.",
  "The generator commands have no tests.",
  ["cmd/idmd/gen/newusers/newusers.go", "cmd/idmd/gen/newusers/utils.go", "cmd/idmd/gen/newusers/output_ldif.go"], [("number allocation", "cmd/idmd/gen/newusers/newusers.go")], None, ["output of the command"])

p("C25", "Passwords verify against their own hash and nothing else",
  "For every password and every supported scheme, a hash produced by the software (library or command line tool, printed unaltered) verifies that password and no other, two hashes of one password with a salted scheme differ, and a hash produced by other standard software in a supported scheme is verified correctly. Verification of arbitrary text never succeeds by accident and never crashes.",
  ["inputs"],
  "All passwords over an alphabet with case, blanks, percent signs, braces, non-ASCII and binary characters and lengths, all schemes and scheme name spellings, all truncations and single alterations of valid hashes.",
  "The password package and the command have no tests.",
  ["pkg/ldappassword/ldappassword.go", "pkg/ldappassword/crypt.go", "cmd/idmd/gen/passwd/passwd.go"], [("hash and validate", "pkg/ldappassword/ldappassword.go")], None, ["return values", "output of the command"])

p("C26", "LDIF templates include files faithfully and only from their own folder",
  "A file included by an LDIF template appears with its exact content, and only content from the template's own folder tree of at most the permitted size can be included; a path leading elsewhere or a larger file makes loading fail instead of leaking or truncating data. Every line of a template is loaded completely, and automatic numbers handed out within a file are consecutive and distinct.",
  ["inputs", "configurations"],
  "All file sizes including those not divisible by the encoding block and around the limit, all relative and absolute paths with parent references or sibling folders sharing a name prefix, long lines, templates with several numbering sequences.",
  "Templates have no tests.",
  ["server/handler/ldif/template.go", "server/handler/ldif/ldif.go"], [("containment check and size limit", "server/handler/ldif/template.go"), ("template parsing", "server/handler/ldif/ldif.go")], None, ["search results after loading", "start-up failure"])

p("C27", "The server starts, reloads and stops cleanly",
  "A started server accepts connections on its configured address until told to stop; a reload signal never stops it or drops connections. On a termination signal it stops accepting, releases its address and exits successfully, every change it acknowledged is in the database, and a new server can be started on the same database and address; an invalid configuration makes it fail at start instead of serving.",
  ["histories", "configurations", "schedules"],
  "All sequences of start, requests, reload signals, termination signals (idle, with open connections, under load) and restarts, for both backends, valid and invalid configurations.",
  "No test starts the server program.",
  ["server/server.go", "cmd/idmd/serve/serve.go", S], [("signal handling", "server/server.go:Serve")], None, ["process exit code", "connections"])

p("C28", "Clients that have gone leave nothing behind",
  "Once clients have gone, however they left and whatever they had asked for, the server holds no more open files, connections, running tasks and memory than before they came; unfinished paged searches are given up within two minutes. Changing the directory again and again without adding data does not make the database file grow without bound, whatever other clients read meanwhile.",
  ["histories", "fault_points", "schedules"],
  "All orders of connecting, asking for something of any kind and leaving at any point of it: properly, abruptly, in the middle of a message, of an answer, of a result list, of the negotiation of encryption, by input that cannot be handled; both backends.",
  "Tests run for a moment and never count what the server still holds.",
  ["pkg/ldapserver/server.go", "server/handler/ldif/handler.go", "server/handler/boltdb/handler.go", "pkg/ldbbolt/ldbbolt.go"],
  [("end of a connection", "pkg/ldapserver/server.go:handleConnection"), ("search pump and its timeout", "server/handler/ldif/handler.go:searchEntriesPump"), ("transactions", "pkg/ldbbolt/ldbbolt.go")],
  [("connections, goroutines, transactions", "what the process holds", "pkg/ldapserver/server.go")], ["open files of the process", "published metrics of the process", "size of the database file"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
