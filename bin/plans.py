"""What each check runs, and which clauses of the specifications decide its property."""


import os

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Plan:
    def __init__(self, clauses, stages, level="model_checking", assumptions=(), parallel=4,
                 technique="TLA+ model checking (TLC) with conformance of the real server by trace validation",
                 note="The model is explored completely for its bounds; the real server is bound to it by recorded traces, so the verdict covers the executions driven in this run."):
        self.clauses = set(clauses) if clauses is not None else None
        self.stages = stages
        self.level = level
        self.assumptions = list(assumptions)
        self.parallel = parallel
        self.technique = technique
        self.note = note


def directory(prop, quick, thorough, need=None):
    """Walks of the given alphabets and random histories, judged by Directory."""
    def stages(c, tier):
        names = quick if tier == "quick" else thorough
        res = [lambda n=n: c.walk(n) for n in names]
        n = {"ops": 1000}
        n.update(need or {})
        res.append(lambda: c.drive("histories", ["dir", prop], clauses=c.clauses, need=n))
        res.append(lambda: c.drive("wide", ["wide", prop], clauses=c.clauses, need={"ops": 150}))
        return res
    return stages


def ldif(prop, quick=(), thorough=(), models=(), reload=False, extra=None, need=None):
    """The LDIF backend: walks, random histories, and reloads under load."""
    def stages(c, tier):
        res = extra(c, tier) if extra else []
        res += [lambda n=n: c.lwalk(n) for n in (quick if tier == "quick" else thorough)]
        res += [lambda n=n: c.model("MCLdif", "MC_" + n) for n in models]
        n = {"ops": 500}
        n.update(need or {})
        res.append(lambda: c.drive("ldif", ["ldif", prop], spec="TraceLdif", clauses=c.clauses, need=n))
        if reload:
            res.append(lambda: c.drive("reload", ["reload"], spec="TraceReload", clauses=c.clauses, need={"ops": 500, "reloads": 50}))
        return res
    return stages


def conn(quick_faults, drives):
    """Conversations on the level of the protocol."""
    def stages(c, tier):
        res = [lambda: c.model("MCConn", "MC_Conn_none")]
        res += [lambda f=f: c.refuted("MCConn", "MC_Conn_" + f) for f in quick_faults]
        res += [lambda t=t, a=a, n=n: c.drive(t, a, spec="TraceConn", clauses=c.clauses, need=n) for t, a, n in drives]
        return res
    return stages


def counters(c, tier):
    res = [lambda: c.model("MCCounters", "MC_Counters_none"), lambda: c.model("MCCounters", "MC_Counters_three")]
    res += [lambda f=f: c.refuted("MCCounters", "MC_Counters_" + f) for f in ("nolock", "noclose", "maxlow", "double", "leak")]
    need = {"ops": 2000, "settled": 60, "looks": 500}
    res.append(lambda: c.drive("metrics", ["counters", "metrics"], spec="TraceCounters", clauses=c.clauses, need=need))
    lib = c.buildlib()
    if lib:
        res.append(lambda: c.drive("library", ["counters", "library", lib], spec="TraceCounters", clauses=c.clauses, need=need))
    return res


def leaks(c, tier):
    res = [lambda: c.model("MCResources", "MC_Resources_none")]
    res += [lambda f=f: c.refuted("MCResources", "MC_Resources_" + f) for f in ("greeting", "answering", "failing", "pump", "reader")]
    for b, n in (("ldif", {}), ("boltdb", {"changes": 1500})):
        res.insert(0, lambda b=b, n=n: c.drive(b, ["leaks", b], spec="TraceResources", clauses=c.clauses, need={"ops": 1000, "looks": 25, **n}))
    return res


def access(c, tier):
    res = [lambda: c.model("MCAccess", "MC_Access_none")]
    res += [lambda f=f: c.refuted("MCAccess", "MC_Access_" + f) for f in ("anyaddr", "unauth", "pwonly", "stale", "unchecked", "resume")]
    lib = c.buildlib()
    for backend, cookies in (("boltdb", 0), ("ldif", 100)):
        need = {"op.bind": 1000, "op.search": 1000, "op.read": 200, "cookies": cookies}
        res.append(lambda b=backend, n=need: c.drive("real-" + b, ["access", b], spec="TraceAccess", clauses=c.clauses, need=n))
        if lib:
            res.append(lambda b=backend, n=need: c.drive("claimed-" + b, ["access", b, lib], spec="TraceAccess", clauses=c.clauses, need=n))
    return res


def transfer(c, tier):
    res = [lambda f=f: c.refuted("MCTransfer", "MC_Transfer_" + f) for f in ("skip", "changes", "overwrite", "deep", "behind")]
    f = c.export("MCTransfer", "MC_Transfer_two" if tier == "quick" else "MC_Transfer_none")
    res.append(lambda: c.drive("replay", ["transfer", f], spec="TraceTransfer", clauses=c.clauses))
    res.append(lambda: c.drive("random", ["transfer", "random"], spec="TraceTransfer", clauses=c.clauses, need={"loads": 300, "exports": 150}))
    return res


def template(c, tier):
    res = [lambda f=f: c.refuted("MCTemplate", "MC_Template_" + f) for f in ("nosep", "noclean", "relative", "dotdot")]
    f = c.export("MCTemplate", "MC_Template_none")
    res.append(lambda: c.drive("replay", ["template", f], spec="TraceTemplate", clauses=c.clauses, need={"loaded": 20, "failed": 20}))
    res.append(lambda: c.drive("random", ["template", "random"], spec="TraceTemplate", clauses=c.clauses, need={"loaded": 100, "failed": 50, "item.auto": 200, "item.file": 200}))
    return res


def newusers(c, tier):
    res = [lambda f=f: c.refuted("MCNewUsers", "MC_NewUsers_" + f) for f in ("low", "first", "zero", "drop")]
    f = c.export("MCNewUsers", "MC_NewUsers_none" if tier == "quick" else "MC_NewUsers_four")
    res.append(lambda: c.drive("replay", ["newusers", f], spec="TraceNewUsers", clauses=c.clauses, need={"lists": 1000}))
    res.append(lambda: c.drive("random", ["newusers", "random"], spec="TraceNewUsers", clauses=c.clauses, need={"lists": 500, "binds": 1000, "spoiled.bad": 50, "spoiled.may": 30}))
    return res


def passwords(c, tier):
    res = [lambda f=f: c.refuted("MCPasswords", "MC_Passwords_" + f) for f in ("fold", "trim", "nul", "scheme", "prefix")]
    f = c.export("MCPasswords", "MC_Passwords_none" if tier == "quick" else "MC_Passwords_three")
    res.append(lambda: c.drive("replay", ["passwords", f], spec="TracePasswords", clauses=c.clauses, need={"walk.stored": 150}))
    res.append(lambda: c.drive("made", ["passwords", "made"], spec="TracePasswords", clauses=c.clauses, need={"made": 200, "tries.argon2": 500, "tries.crypt": 500, "tries.des": 300, "tries.ssha": 200, "tries.clear": 500}))
    res.append(lambda: c.drive("damaged", ["passwords", "damaged"], spec="TracePasswords", clauses=c.clauses, need={"tries.damaged": 2000, "tries.junk": 300}))
    return res


def linear(c, tier):
    res = [lambda f=f: c.refuted("MCLinear", "MC_Linear_" + f) for f in ("split", "check", "torn", "early", "old")]
    res += [lambda f=f: c.model("MCLinear", "MC_Linear_" + f) for f in (("none", "three") if tier == "quick" else ("three", "four"))]
    need = {"ops": 3000, "overlaps": 3000, "windows.values": 20, "windows.tree": 20, "windows.pw": 5, "ok.rename": 20, "ok.pw": 20}
    res += [lambda k=k: c.drive("windows-%d" % k, ["linear"], spec="TraceLinear", clauses=c.clauses, seed=SEED * 10 + k, need=need) for k in range(2 if tier == "quick" else 4)]
    return res


def crash(c, tier):
    res = [lambda f=f: c.refuted("MCStore", "MC_Store_" + f) for f in ("nosync1", "nosync2", "inplace", "onemeta", "early", "twotx", "ignore")]
    res += [lambda f=f: c.refuted("MCLinear", "MC_Linear_" + f) for f in ("halves", "lateack")]
    res += [lambda: c.model("MCStore", "MC_Store_four"), lambda: c.model("MCLinear", "MC_Linear_killed")]
    res.append(lambda: c.drive("killed", ["killed"], spec="TraceLinear", clauses={"order", "alive", "tree"}, need={"ops": 500, "lost": 100}))
    if c.probe("supervised"):
        res.append(lambda: c.drive("points", ["crash"], spec="TraceStore", clauses=c.clauses, need={"images": 3000, "restarted": 200, "requests.writing": 80}))
        # once the disk works again everything else has to work again, too
        res.append(lambda: c.drive("failing", ["fault"], spec="TraceStore", clauses=c.clauses | {"add", "delete", "modify", "rename", "search", "bind"}, need={"faults": 100, "failed.sync": 10, "failed.write": 50}))
    return res


def life(c, tier):
    res = [lambda f=f: c.refuted("MCLifecycle", "MC_Life_" + f) for f in ("shared", "late", "hupstops", "hupdrops", "deaf", "oneopen", "badcode", "serves", "early")]
    f = c.export("MCLifecycle", "MC_Life_none" if tier == "quick" else "MC_Life_more")
    res.append(lambda: c.drive("configs", ["life", "configs"], spec="TraceLifecycle", clauses=c.clauses, need={"configs.valid": 8, "configs.invalid": 30}))
    res.append(lambda: c.drive("replay", ["life", f], spec="TraceLifecycle", clauses=c.clauses, need={"starts": 1500, "sig.HUP": 3000}))
    res.append(lambda: c.drive("random", ["life", "random"], spec="TraceLifecycle", clauses=c.clauses, need={"early": 80, "loaded": 5000, "ev.load": 80}))
    return res


DISK = "the directory is read from a copy of the database file after each request"
FOLD = "letter case is folded by simple Unicode case folding"

PLANS = {
    "C01": Plan(["authz", "authzcode"], directory("C01", ["SessAlphabet", "PwAlphabet"], ["SessLong", "PwAlphabet", "SessAlphabet"]), assumptions=[DISK]),
    "C02": Plan(["bind", "bindcode"], ldif("C02", extra=directory("C02", ["SessAlphabet", "PwAlphabet"], ["SessLong", "PwAlphabet"])), assumptions=[DISK]),
    "C03": Plan(["ident", "authz", "bind", "anonread"], directory("C03", ["SessAlphabet"], ["SessLong", "SessAlphabet"]), assumptions=[DISK]),
    "C04": Plan(["tree"], directory("C04", ["TreeSmall", "TreeNarrow", "TreeFull"], ["TreeSmall", "TreeNarrow", "TreeFull"]), assumptions=[DISK]),
    "C05": Plan(["add", "delete", "trace-left", "durable"], directory("C05", ["TreeSmall", "TreeNarrow", "TreeFull"], ["TreeSmall", "TreeNarrow", "TreeFull"]), assumptions=[DISK]),
    "C06": Plan(["modify"], directory("C06", ["ModAlphabet"], ["ModAlphabet", "ModLong"]), assumptions=[DISK, FOLD]),
    "C07": Plan(["rename"], directory("C07", ["TreeSmall", "TreeNarrow", "ModAlphabet"], ["TreeFull", "TreeNarrow", "ModLong"]), assumptions=[DISK, FOLD]),
    "C08": Plan(["ident", "add", "delete", "modify", "rename", "bind", "pw", "search", "scope", "tree"], directory("C08", ["TreeSmall"], ["TreeFull", "SearchAlphabet"]), assumptions=[DISK, FOLD]),
    "C09": Plan(["search", "scope"], directory("C09", ["SearchAlphabet"], ["SearchAlphabet", "FilterSmall"]), assumptions=[DISK]),
    "C10": Plan(["filter"], ldif("C10", extra=directory("C10", ["FilterSmall"], ["FilterSmall", "FilterLong"])), assumptions=[DISK, FOLD]),
    "C11": Plan(["size", "attrs"], ldif("C11", extra=directory("C11", ["SearchAlphabet"], ["SearchAlphabet"])), assumptions=[DISK]),
    "C12": Plan(["search", "scope", "filter"], ldif("C12", ["LdifOne"], ["LdifOne", "LdifTwo"], need={"op.search": 1000}), assumptions=[FOLD]),
    "C13": Plan(["page", "answer", "alive"], ldif("C13", ["LdifOne"], ["LdifOne", "LdifTwo"], ["LdifEnds", "LdifExpire"], need={"op.page": 800},
                                                      extra=lambda c, tier: [lambda: c.drive("pauses", ["pauses"], spec="TraceLdif", clauses=c.clauses, need={"paused": 15})]), assumptions=[FOLD]),
    "C14": Plan(["search", "bind", "bindcode", "page", "reload", "answer", "alive", "mix", "stale"], ldif("C14", ["LdifOne"], ["LdifOne", "LdifTwo"], reload=True, need={"reload.bad": 200}), assumptions=[FOLD]),
    "C15": Plan(["readonly", "secret", "search"], ldif("C15", ["LdifOne"], ["LdifOne"], need={"op.search": 400}), assumptions=[FOLD]),
    "C16": Plan(["order", "answer", "alive", "tree"], linear, assumptions=["the directory is read while no request is under way", "clients send one request at a time"]),
    "C17": Plan(["lost", "partial", "opens", "serves", "failed", "tree", "durable", "answer", "alive"], crash,
                assumptions=["a file system that keeps what was synchronised, and any part of the other writes, in units of 512 bytes", "the system calls of the server are seen through seccomp notifications"]),
    "C18": Plan(["pw", "bind", "authz"], directory("C18", ["PwAlphabet"], ["PwAlphabet"]), assumptions=[DISK]),
    "C19": Plan(["number", "type", "extra", "accepted", "ended", "silent", "garbled"],
                conn(["overlap", "accept", "type", "number", "drop", "twice", "hangup"], [("pipeline", ["pipeline"], {"ops": 5000, "unsupported": 200, "op.compare": 20})]),
                assumptions=["a request is taken for unanswered after 20 s"]),
    "C20": Plan(["hanging", "alive", "others", "accept", "changed"],
                conn(["drop", "hangup"], [("altered", ["hostile", "altered"], {"ops": 2500, "as_admin": 1500}), ("strange", ["hostile", "strange"], {"ops": 1500}),
                                          ("random", ["hostile", "random"], {"ops": 700, "disconnects": 60, "stalled": 20}), ("extreme", ["hostile", "extreme"], {"ops": 100, "flood": 150})]),
                parallel=5, assumptions=["a connection is taken for hanging after 15 s", "messages of up to 6 MB, a server process with 6 GB of address space"]),
    "C21": Plan(["leak", "anonbind", "bind", "refused", "denied", "answer", "alive"], access,
                assumptions=["addresses that do not belong to the machine are claimed by a listener handing out connections with that remote address"]),
    "C22": Plan(["crash", "silent", "load", "refused", "unsaid", "partial", "export", "entries", "values", "order", "dups", "changed", "again", "full"], transfer,
                assumptions=["entries without any attribute are left out, LDIF cannot express them"]),
    "C23": Plan(["count", "conns", "current", "max", "back", "blocked"], counters,
                assumptions=["the counters of adds, deletes, modifies and renames are read from the statistics of the library, for they are not published"]),
    "C24": Plan(["crash", "unsaid", "refused", "loads", "records", "name", "cn", "mail", "kept", "unique", "password"], newusers,
                assumptions=["passwords kept as they are do not look like the name of a scheme"]),
    "C25": Plan(["accepted", "rejected", "alive", "answer", "crash", "refused", "salt", "printed"], passwords,
                assumptions=["hashes of other software: OpenSSL 3.0 and the C library, in harness/hashes.json", "only the first eight bytes count for DES hashes"]),
    "C26": Plan(["forbidden", "refused", "crash", "number", "file", "text"], template, assumptions=["no symbolic links below the template folder"]),
    "C27": Plan(["start", "invalid", "accept", "drop", "exit", "code", "released", "stopped", "lost", "more"], life,
                assumptions=["a server that does not end within 30 s never ends", "signals are sent once a listener accepts connections"]),
    "C28": Plan(["files", "tasks", "memory", "size", "dead"], leaks,
                assumptions=["open files are those the system lists for the process, tasks and memory are taken from its published metrics",
                             "up to 5 files and tasks and 120 MB more than before count as nothing; each kind of use is repeated 40 times and more"]),
}

for _p in ["C%02d" % i for i in range(1, 16)] + ["C18"]:
    # A request that is not answered at all, or ends the server, does not do what its property says.
    PLANS[_p].clauses |= {"answer", "alive"}

NOT_APPLICABLE = {}
