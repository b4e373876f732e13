"""C03 C04 methods and encoding, C05 decoding, C06 classification, C20 accessors, C21 conversions, C24 request ids."""
from common import *
from codec import *

# variant -> (method, parameter member: True if the variant carries parameters)
REQUESTS = {
    "InitializeBuild": ("build/initialize", True),
    "Shutdown": ("build/shutdown", False),
    "WorkspaceBuildTargets": ("workspace/buildTargets", False),
    "WorkspaceReload": ("workspace/reload", False),
    "BuildTargetDependencyModules": ("buildTarget/dependencyModules", True),
    "DebugSessionStart": ("debugSession/start", True),
    "BuildTargetSources": ("buildTarget/sources", True),
    "TextDocumentInverseSources": ("buildTarget/inverseSources", True),
    "BuildTargetDependencySources": ("buildTarget/dependencySources", True),
    "BuildTargetResources": ("buildTarget/resources", True),
    "BuildTargetRun": ("buildTarget/run", True),
    "BuildTargetCompile": ("buildTarget/compile", True),
    "BuildTargetTest": ("buildTarget/test", True),
    "BuildTargetCleanCache": ("buildTarget/cleanCache", True),
}
NOTIFICATIONS = {
    "Exit": ("build/exit", False),
    "Initialized": ("build/initialized", False),
    "ShowMessage": ("build/showMessage", True),
    "LogMessage": ("build/logMessage", True),
    "PublishDiagnostics": ("build/publishDiagnostics", True),
    "TaskStart": ("build/taskStart", True),
    "TaskFinish": ("build/taskFinish", True),
    "TaskProgress": ("build/taskProgress", True),
    "BuildTargetDidChange": ("buildTarget/didChange", True),
}


class Kind:
    """Request or Notification: its type, variants, table, and where id, method and params sit."""

    def __init__(self, chk, N, which):
        self.which = which
        self.req = which == "Request"
        self.ty = N.req if self.req else N.notif
        self.vs = N.rv if self.req else N.nv
        self.table = REQUESTS if self.req else NOTIFICATIONS
        self.off = 1 if self.req else 0         # members before params / custom method
        if "Custom" not in self.vs:
            raise Anchor("%s has no variant Custom" % which)
        self.custom = self.vs.index("Custom")
        for n in self.table:
            if n not in self.vs:
                raise Anchor("%s has no variant %s" % (which, n))
        self.method = {m: v for v, (m, _) in self.table.items()}

    def name(self, i):
        return self.vs[i]


def type_impl(chk, p, trait, item, ty):
    k = models.impl_fn(p, trait, item, ty)
    if k is None:
        raise Anchor("no %s for %s" % (trait, ty))
    return k


# ---- C04 what is written -------------------------------------------------------------------------
def check_encoding(chk):
    p = chk.P.server
    N = Names(chk)
    n = 0
    for which in ("Request", "Notification"):
        K = Kind(chk, N, which)
        nm = which + " encoder"
        g, outs = encodings(chk, p, type_impl(chk, p, "Serialize", "serialize", K.ty), nm)
        seen = set()
        for o in outs:
            if o.form[0] != "object":
                chk.fail(nm + ": is not an object", str(o.form[0]))
                continue
            ent = o.form[1]
            names = [x for x, _ in ent]
            for x in set(names):
                if not isinstance(x, str):
                    chk.fail(nm + ": cannot tell a member's name", str(x))
                elif names.count(x) > 1:
                    chk.fail("%s: writes member %s twice" % (nm, x), "")
                elif x not in ("id", "method", "params"):
                    chk.fail("%s: writes an extra member %s" % (nm, x), "")
            d = dict(ent)
            for i in sorted(possible(o.kn, ARG0, len(K.vs))):
                v = K.name(i)
                seen.add(i)
                n += 1
                m = S(K.table[v][0]) if v in K.table else fld(ARG0, i, K.off)
                what = "%s::%s" % (which, v)
                if K.req:
                    chk.ob(what + ": writes its id", d.get("id") == fld(ARG0, i, 0), "writes %s" % (pv(g.an, d["id"]) if "id" in d else "none"))
                else:
                    chk.ob(what + ": writes no id", "id" not in d, "a notification with an id is a request")
                if v in K.table or v == "Custom":
                    chk.ob(what + ": writes its method", d.get("method") == m, "writes %s, not %s" % (pv(g.an, d["method"]) if "method" in d else "none", pv(g.an, m)))
                if v == "Custom":
                    par = fld(ARG0, i, K.off + 1)
                    null = known_null(p, o.kn, par)
                    if "params" in d:
                        chk.ob(what + ": writes its params", d["params"] == par, "writes " + pv(g.an, d["params"]))
                        if K.req:
                            chk.ob(what + ": omits params that are null", null is False, "null params are written")
                    else:
                        chk.ob(what + ": omits only params that are null", null is True, "params are dropped")
                elif v in K.table and K.table[v][1]:
                    chk.ob(what + ": writes its params", d.get("params") == fld(ARG0, i, K.off), "writes %s" % (pv(g.an, d["params"]) if "params" in d else "none"))
                elif v in K.table:
                    chk.ob(what + ": writes no params", "params" not in d, "this method takes none")
        for i, v in enumerate(K.vs):
            chk.ob("%s::%s can be written" % (which, v), i in seen, "no path writes it")
    chk.floor("variants encoded", n, 25)
    check_response_encoding(chk, N)


def known_null(p, kn, v):
    """Is the JSON value v null: True / False / None."""
    a = [x for x in p.adts if x.endswith("serde_json::Value") or x == "serde_json::Value"]
    if len(a) != 1:
        raise Anchor("no serde_json::Value")
    vs = [x["name"] for x in p.adts[a[0]]["variants"]]
    i = vs.index("Null")
    s = possible(kn, v, len(vs))
    return True if s == {i} else False if i not in s else None


def check_response_encoding(chk, N):
    p = chk.P.server
    for ty, spec in ((N.resp, {"id": None, "result": "option", "error": "option"}), (N.rerr, {"code": None, "message": None, "data": "option"})):
        short = ty.split("::")[-1]
        nm = short + " encoder"
        g, outs = encodings(chk, p, type_impl(chk, p, "Serialize", "serialize", ty), nm)
        fs = chk.fields(p, ty)
        for o in outs:
            if o.form[0] != "object":
                chk.fail(nm + ": is not an object", str(o.form[0]))
                continue
            object_members(chk, p, g, nm, o, {w: (fld(ARG0, 0, fs.index(w)), s) for w, s in spec.items()})


def object_members(chk, p, g, nm, o, spec):
    """o wrote an object: spec wire name -> (value term, omission rule). Rules: None always written;
    "option" written exactly if Some; "string"/"vec" written exactly if not empty; "null" exactly if not null; a
    variant ("variant", index, count) exactly if it is another variant."""
    ent = o.form[1]
    names = [x for x, _ in ent]
    for x in names:
        if not isinstance(x, str):
            chk.fail(nm + ": cannot tell a member's name", str(x))
        elif x not in spec:
            chk.fail("%s: writes member %s" % (nm, x), "the protocol has no such member here")
        if names.count(x) > 1:
            chk.fail("%s: writes member %s twice" % (nm, x), "")
    d = dict(ent)
    for w, (term, rule) in spec.items():
        e = empty(p, o.kn, term, rule)
        if w in d:
            chk.ob("%s: %s carries its value" % (nm, w), d[w] == term or rule == "option" and d[w] == fld(term, 1, 0), "carries %s" % pv(g.an, d[w]))
            if rule is not None:
                chk.ob("%s: %s is omitted when empty" % (nm, w), e is False, "written although it may be empty")
        else:
            chk.ob("%s: %s is written%s" % (nm, w, "" if rule is None else " unless empty"), rule is not None and e is True, "left out although it may carry a value")


def empty(p, kn, term, rule):
    """Is the value empty in the sense of the rule: True / False / None."""
    if rule is None:
        return False
    if rule == "option":
        s = possible(kn, term, 2)
        return True if s == {0} else False if s == {1} else None
    if rule in ("string", "vec"):
        return holds(kn, ("app", "len", (term,)), I(0))
    if rule == "null":
        return known_null(p, kn, term)
    if rule[0] == "variant":
        s = possible(kn, term, rule[2])
        return True if s == {rule[1]} else False if rule[1] not in s else None
    return None


# ---- C03 the method tables ------------------------------------------------------------------------
def check_methods(chk):
    p = chk.P.server
    N = Names(chk)
    n = 0
    for which in ("Request", "Notification"):
        K = Kind(chk, N, which)
        # method()
        g = chk.explore(p, chk.method_root(p, which, "method"))
        got = {}

        def step(kn, e, fail):
            if e[0] == "assume":
                return learn(kn, e)
            if e[0] == "ret":
                for i in possible(kn, ARG0, len(K.vs)):
                    got.setdefault(i, set()).add(e[1])
                return None
            return kn
        chk.simulate(g, frozenset(), step, which + "::method")
        for i, v in enumerate(K.vs):
            if v not in K.table and v != "Custom":
                continue
            want = S(K.table[v][0]) if v in K.table else fld(ARG0, i, K.off)
            n += 1
            chk.ob("%s::%s: method() is %s" % (which, v, K.table[v][0] if v in K.table else "the one given"), got.get(i) == {want}, "returns %s" % sorted(pv(g.an, x) for x in got.get(i, ())))
        # decoder
        names = {}

        def on_ok(d, pay, fail):
            m = method_terms(d)
            if pay[0] != "a" or pay[1] != K.ty:
                fail("cannot tell what is decoded", pv(D.an, pay))
                return
            v = K.name(pay[2])
            names.setdefault(v, set()).update(method_of(d.kn, m, K))
        D = decoder(chk, p, K, on_ok)
        chk.simulate_quiet(D)
        for v, ms in sorted(names.items()):
            if v in K.table:
                chk.ob("%s::%s is decoded from %s only" % (which, v, K.table[v][0]), ms <= {K.table[v][0]}, "also from %s" % ", ".join(sorted(map(str, ms - {K.table[v][0]}))))
            elif v == "Custom":
                chk.ob("%s::Custom is decoded from other methods only" % which, ms == {""}, "from %s" % ", ".join(sorted(map(str, ms))))
        for v, (m, _) in K.table.items():
            chk.ob("%s::%s is decoded from %s" % (which, v, m), m in names.get(v, ()), "no path decodes it")
        # encoder
        g, outs = encodings(chk, p, type_impl(chk, p, "Serialize", "serialize", K.ty), which + " encoder")
        for o in outs:
            if o.form[0] == "object" and "method" in dict(o.form[1]):
                for i in possible(o.kn, ARG0, len(K.vs)):
                    v = K.name(i)
                    if v in K.table:
                        chk.ob("%s::%s is encoded as %s" % (which, v, K.table[v][0]), dict(o.form[1])["method"] == S(K.table[v][0]), "as %s" % pv(g.an, dict(o.form[1])["method"]))
    allm = list(REQUESTS.values()) + list(NOTIFICATIONS.values())
    chk.ob("methods are distinct", len({m for m, _ in allm}) == len(allm))
    chk.floor("variants with a method", n, 25)


def method_terms(d):
    """The terms that stand for the message's method: what is read, or what is decoded from it."""
    if "method" not in d.members:
        return set()
    m = ok(d.members["method"])
    return {m} | {ok(s) for s, _, a in d.subs if a == m}


def method_of(kn, ms, K):
    """The methods this path stands for: known names, or "" for all others."""
    out = set()
    for f in kn:
        if f[0] not in ms:
            continue
        if f[1] == "=":
            return {f[2][1]}
        if f[1] == "!":
            out |= {c[1] for c in f[2]}
    left = {x for x in K.method if x not in out}
    return left | {""}


def decoder(chk, p, K, on_ok):
    names = {"id", "method", "params"} if K.req else {"method", "params"}
    req = {"id", "method"} if K.req else {"method"}
    key = type_impl(chk, p, "Deserialize", "deserialize", K.ty)
    return ObjectDecoder(chk, p, key, K.which + " decoder", names, req, on_ok)


# ---- C05 decoding ----------------------------------------------------------------------------------
def check_decoding(chk):
    p = chk.P.server
    N = Names(chk)
    n = 0
    for which in ("Request", "Notification"):
        K = Kind(chk, N, which)
        stats = {}

        def on_ok(d, pay, fail, K=K):
            if pay[0] != "a" or pay[1] != K.ty:
                fail("cannot tell what is decoded", pv(D.an, pay))
                return
            v = K.name(pay[2])
            x = pay[3]
            stats[v] = stats.get(v, 0) + 1
            if K.req:
                if not decoded_from(D, d, x[0], d.members["id"]):
                    fail("%s gets an id that is not the message's" % v, pv(D.an, x[0]))
            par = ok(d.members["params"]) if "params" in d.members else None
            if v == "Custom":
                if x[K.off] not in method_terms(d):
                    fail("Custom gets a method that is not the message's", pv(D.an, x[K.off]))
                y = x[K.off + 1]
                if par is None and not null_value(p, y) or par is not None and y != par and not (y[0] == "a" and null_value(p, y) and known_null(p, d.kn, par)):
                    fail("Custom gets params that are not the message's", pv(D.an, y))
            elif v in K.table and K.table[v][1]:
                y = x[K.off]
                good = any(y == ok(r) and (a == par if par is not None else null_value(p, a)) for r, _, a in d.subs)
                if not good:
                    fail("%s gets params that are not the message's" % v, pv(D.an, y))
            elif v in K.table:
                pass
            ms = method_of(d.kn, method_terms(d), K)
            bad = {m for m in ms if (K.method.get(m, "Custom") if m else "Custom") != v}
            if bad:
                fail("method %s is decoded as %s" % (", ".join(sorted(m or "(other)" for m in bad)), v), "")
        D = decoder(chk, p, K, on_ok)
        D.run()
        n += D.nok
        for v in list(K.table) + ["Custom"]:
            chk.ob("%s::%s can be decoded" % (which, v), stats.get(v, 0) > 0, "no path decodes it")
        chk.ob(which + " decoder: insists on its required members", D.nmiss > 0, "no path")
        chk.ob(which + " decoder: tolerates unknown members", D.nunknown > 0, "no path")
        chk.ob(which + " decoder: refuses repeated members", D.ndup > 0, "no path")
    chk.floor("successful decodings", n, 30)


def decoded_from(D, d, v, r):
    """v is what the value read as r decodes to."""
    if v == ok(r):
        return True
    if v[0] == "a" and v[1] == OPTION:      # taken apart and put together again
        if possible(d.kn, ok(r), 2) == {v[2]} and v[3] in ((), (fld(ok(r), 1, 0),)):
            return True
    return any(v == ok(s) and a == ok(r) for s, _, a in d.subs)
