"""C20 accessors, C21 conversions, C22 defaults, C24 request ids, C25 default handlers, C28 root path: values and where they go."""
from rules_wire import *

SELF = ("S", ("arg", 0))

# the constructors of the payload types: argument by argument, the field it fills; "!" what the remaining fields must be
NEW = {
    "BuildTargetCapabilities": {"new": "can_compile can_test can_run can_debug"},
    "BuildTargetCleanCacheResult": {"new": "message cleaned", "new_simple": "cleaned"},
    "BuildTargetCompile": {"new": "target origin_id arguments", "new_simple": "target"},
    "BuildTargetCompileResult": {"new": "origin_id status_code data_kind data", "new_simple": "status_code"},
    "BuildTargetDependencyModulesResult": {"new": "items"},
    "DependencyModulesItem": {"new": "target modules"},
    "DependencyModule": {"new": "name version data_kind data", "new_simple": "name version"},
    "BuildTargetDependencySources": {"new": "text_document"},
    "BuildTargetEvent": {"new": "target kind data", "new_simple": "target"},
    "BuildTargetIdentifier": {"new": "uri"},
    "TextDocumentInverseSources": {"new": "text_document"},
    "BuildTargetResources": {"new": "targets"},
    "BuildTargetResourcesResult": {"new": "items"},
    "Resources": {"new": "target resources"},
    "BuildTargetRun": {"new": "target origin_id arguments data_kind data", "new_simple": "target"},
    "BuildTargetRunResult": {"new": "origin_id status_code"},
    "BuildTargetSources": {"new": "targets"},
    "BuildTargetSourcesResult": {"new": "items"},
    "SourcesCollection": {"new": "target sources"},
    "Sources": {"new": "uri kind generated"},
    "BuildTargetTest": {"new": "target origin_id arguments data_kind data", "new_simple": "target"},
    "BuildTargetTestResult": {"new": "origin_id status_code data_kind data", "new_simple": "status_code"},
    "ClientCapabilities": {"new": "language_ids"},
    "DebugSessionStart": {"new": "targets data_kind data"},
    "DebugSessionStartResult": {"new": "uri"},
    "InitializeBuild": {"new": "display_name version bsp_version root_uri capabilities data", "new_simple": "display_name version bsp_version root_uri capabilities"},
    "InitializeBuildResult": {"new": "display_name version bsp_version capabilities data", "new_simple": "display_name version bsp_version capabilities"},
    "LogMessage": {"new": "typ message task origin_id", "info": "message task origin_id typ!Info", "log": "message task origin_id typ!Log",
                   "warn": "message task origin_id typ!Warning", "error": "message task origin_id typ!Error"},
    "ShowMessage": {"new": "typ message task origin_id", "info": "message task origin_id typ!Info", "log": "message task origin_id typ!Log",
                    "warn": "message task origin_id typ!Warning", "error": "message task origin_id typ!Error"},
    "TaskFinish": {"new": "task_id status!Ok"},
    "TaskStart": {"new": "task_id"},
    "TaskId": {"new": "id parents"},
    "BuildTarget": {"new": "id display_name base_directory tags capabilities language_ids dependencies", "new_simple": "id tags capabilities language_ids dependencies"},
    "WorkspaceBuildTargetsResult": {"new": "targets"},
}
IS = {"TaskStatus": {"is_ok": "Ok", "is_error": "Error", "is_cancelled": "Cancelled"}, "TaskDataKind": {"is_none": "None"}}
OWN_DEFAULT = {"TaskDataKind": "None", "TaskStatus": "Ok"}


def ends(chk, g, name, panics=True):
    """Every way the function ends: [(kn, value, outs)]; a panic is a violation unless allowed."""
    out = []

    def step(kn, e, fail):
        if e[0] == "assume":
            return learn(kn, e)
        if e[0] == "ret":
            out.append((kn, e[1], e[3] or {}))
            return None
        if e[0] == "panic":
            if panics:
                fail("panics", describe(g, e) or "")
            return None
        return kn
    chk.simulate(g, frozenset(), step, name)
    if not out:
        chk.fail(name + ": never returns", "no path returns")
    return out


def equals(p, kn, v, t):
    """Is the value v the value t, given what is known: rebuilt aggregates count."""
    if v == t:
        return True
    if t[0] == "a" and v[0] == "a":
        return v[1] == t[1] and v[2] == t[2] and len(v[3]) == len(t[3]) and all(equals(p, kn, x, y) for x, y in zip(v[3], t[3]))
    if v[0] == "alt":
        return all(equals(p, kn, x, t) for x in v[1])
    if v[0] == "a" and isinstance(v[1], str) and is_sym(t):
        a = p.adts.get(v[1])
        n = len(a["variants"]) if a else 2 if v[1] in (OPTION, RESULT) else None
        if n is None:
            return False
        if n > 1 and possible(kn, t, n) != {v[2]}:
            return False
        return all(equals(p, kn, x, fld(t, v[2], i)) for i, x in enumerate(v[3]))
    if v[0] in ("i", "s", "b"):
        return holds(kn, t, v) is True
    if v[0] == "app" and v[1].split("::")[-1] in ("from", "into") and len(v[2]) == 1:
        return equals(p, kn, v[2][0], t)
    return False


class Fields:
    """Which field stands for a member: by the field's own name, or by the member it carries on the wire."""

    def __init__(self, chk, ty):
        self.chk, self.p, self.ty = chk, chk.P.types, ty
        self.names = chk.fields(self.p, ty)
        self.short = ty.split("::")[-1]
        self.wire = None

    def index(self, name):
        if name in self.names:
            return self.names.index(name)
        if self.short not in SPEC:
            return None
        if self.wire is None:
            self.wire = quiet(self.chk, lambda: Wire(self.chk, self.short))
        for m in self.wire.members:
            if name in (m.field, re.sub(r"([A-Z])", lambda x: "_" + x.group(1).lower(), m.wire)):
                return m.index
        return None


def inherent(chk, p):
    """The public inherent functions written in the crate: (key, function, type path or None)."""
    for k in p.roots:
        f = p.fns[k]
        if not f["local"] or f["closure"] or f.get("trait") or not f.get("pub") or f.get("self") is None or "__" in f["path"]:
            continue
        yield k, f, head(p.tys(f["self"]))


def check_accessors(chk):
    p = chk.P.types
    n = dict.fromkeys(("get", "set", "new", "is"), 0)
    fields = {}
    for k, f, ty in inherent(chk, p):
        a = p.adts.get(ty)
        if not a:
            continue
        short, name = ty.split("::")[-1], f["path"].split("::")[-1]
        what = "%s::%s" % (short, name)
        if a["kind"] == "enum":
            if name in IS.get(short, {}):
                n["is"] += 1
                check_is(chk, p, k, ty, what, IS[short][name])
            elif short == "BuildTargetTag" and name == "custom":
                g = chk.explore(p, k, maxstates=300)
                for kn, v, outs in ends(chk, g, what):
                    chk.ob(what + ": is the custom tag of the given text", v[0] == "a" and v[1] == ty and v[2] == chk.variants(p, ty).index("Custom") and equals(p, kn, v[3][0], ARG0), pv(g.an, v))
            continue
        F = fields.setdefault(ty, Fields(chk, ty))
        selfarg = bool(f["names"]) and f["argc"] >= 1 and ["self"] == [x[1] for x in f["names"] if x[0] == 1]
        if name in NEW.get(short, {}) and not selfarg:
            n["new"] += 1
            check_new(chk, p, k, f, F, what, NEW[short][name])
            continue
        if not selfarg:
            continue
        if name == "is_empty" and len(F.names) == 1 and f["argc"] == 1:
            n["is"] += 1
            g = chk.explore(p, k, maxstates=300)
            want = ("app", "len", (fld(ARG0, 0, 0),))
            for kn, v, outs in ends(chk, g, what):
                good = v in (("eq", want, I(0)), ("eq", I(0), want)) or v[0] == "i" and holds(kn, want, I(0)) is bool(v[1])
                chk.ob(what + ": tells whether its list is empty", good, pv(g.an, v))
                unchanged(chk, p, g, kn, outs, what, F)
            continue
        if name == "add_parent" and short == "TaskId":
            n["set"] += 1
            g = chk.explore(p, k, maxstates=300)
            i = F.index("parents")
            for kn, v, outs in ends(chk, g, what):
                s = outs.get(SELF)
                chk.ob(what + ": appends the parent", s is not None and s[0] == "a" and s[3][i] == ("app", "pushed", (fld(ARG0, 0, i), ("arg", 1))), pv(g.an, s) if s else "nothing is changed")
                others(chk, p, g, kn, outs, what, F, i)
            continue
        m = re.match(r"set_(\w+)$", name)
        if m and f["argc"] == 2:
            i = F.index(m.group(1))
            if i is None:
                continue
            n["set"] += 1
            g = chk.explore(p, k, maxstates=300)
            for kn, v, outs in ends(chk, g, what):
                s = outs.get(SELF)
                new = s[3][i] if s is not None and s[0] == "a" else None
                chk.ob(what + ": replaces its member by the argument", new is not None and equals(p, kn, new, ARG1), "the member becomes %s" % (pv(g.an, new) if new else "what it was"))
                others(chk, p, g, kn, outs, what, F, i)
            continue
        if f["argc"] == 1:
            i = F.index(name[:-4] if name.endswith("_mut") else name)
            if i is None:
                continue
            n["get"] += 1
            g = chk.explore(p, k, maxstates=300)
            for kn, v, outs in ends(chk, g, what):
                chk.ob(what + ": returns its member", equals(p, kn, v, fld(ARG0, 0, i)), "returns %s, the member is %s" % (pv(g.an, v), pv(g.an, fld(ARG0, 0, i))))
                unchanged(chk, p, g, kn, outs, what, F)
    chk.floor("accessors", n["get"], 75)
    chk.floor("setters", n["set"], 55)
    chk.floor("constructors", n["new"], 46)
    chk.floor("predicates", n["is"], 5)
    check_conversions_of_payloads(chk)
    check_request_accessors(chk)


def others(chk, p, g, kn, outs, what, F, i):
    s = outs.get(SELF)
    if s is None or s[0] != "a":
        return
    for j, x in enumerate(s[3]):
        if j != i:
            chk.ob("%s: leaves the other members alone" % what, equals(p, kn, x, fld(ARG0, 0, j)), "%s becomes %s" % (F.names[j], pv(g.an, x)))


def unchanged(chk, p, g, kn, outs, what, F):
    s = outs.get(SELF)
    chk.ob("%s: changes nothing" % what, s is None or equals(p, kn, s, ARG0), "self becomes %s" % (pv(g.an, s) if s else ""))


def check_is(chk, p, k, ty, what, variant):
    g = chk.explore(p, k, maxstates=300)
    i = chk.variants(p, ty).index(variant)
    for kn, v, outs in ends(chk, g, what):
        s = possible_of(p, kn, ARG0, ty)
        d = p.adts[ty]["variants"][i]["discr"]
        good = v[0] == "i" and (s == {i} if v[1] else i not in s) or v in (("eq", ("discr", ARG0), I(d)), ("eq", I(d), ("discr", ARG0)))
        chk.ob("%s: is true exactly for %s" % (what, variant), good, "%s although it may be %s" % (pv(g.an, v), ", ".join(chk.variants(p, ty)[j] for j in sorted(s))))


def check_new(chk, p, k, f, F, what, spec):
    fixed = dict(x.split("!") for x in spec.split() if "!" in x)
    pos = [x for x in spec.split() if "!" not in x]
    if f["argc"] != len(pos):
        raise Anchor("%s: takes %d arguments, expected %d" % (what, f["argc"], len(pos)))
    g = chk.explore(p, k, maxstates=600)
    idx = {}
    for n in pos + list(fixed):
        i = F.index(n)
        if i is None:
            raise Anchor("%s: no field %s" % (what, n))
        idx[n] = i
    tys = [p.tys(x["ty"]) for x in p.adts[F.ty]["variants"][0]["fields"]]
    for kn, v, outs in ends(chk, g, what):
        if v[0] != "a" or v[1] != F.ty:
            chk.fail(what + ": cannot tell what is built", pv(g.an, v))
            continue
        for j, n in enumerate(pos):
            x = v[3][idx[n]]
            good = equals(p, kn, x, ("arg", j)) or is_some(x) and equals(p, kn, x[3][0], ("arg", j)) and not tys[idx[n]] == argtype(p, f, j)
            chk.ob("%s: %s gets its argument" % (what, n), good, "%s is %s" % (n, pv(g.an, x)))
        for n, var in fixed.items():
            x = v[3][idx[n]]
            a = p.adts.get(x[1]) if x[0] == "a" else None
            chk.ob("%s: %s is %s" % (what, n, var), bool(a) and a["variants"][x[2]]["name"] == var, "it is " + pv(g.an, x))
        for i, x in enumerate(v[3]):
            if i not in idx.values():
                chk.ob("%s: the other members are at their defaults" % what, leaf_empty(p, x, tys[i]) is not False, "%s is %s" % (F.names[i], pv(g.an, x)))


def argtype(p, f, j):
    ls = f.get("locals")
    if isinstance(ls, list) and len(ls) > j + 1:
        x = ls[j + 1]
        t = x.get("ty") if isinstance(x, dict) else x
        return p.tys(t) if isinstance(t, int) else t
    return None


def leaf_empty(p, v, ty):
    """True if v claims nothing, False if it claims something, None if it cannot be told."""
    if v[0] == "i":
        return v[1] == 0
    if v[0] == "a" and isinstance(v[1], str) and v[1] not in (OPTION, RESULT):
        a = p.adts.get(v[1])
        if a and a["kind"] == "struct" and v[1].split("::")[-1] in SPEC:
            rs = [leaf_empty(p, x, None) for x in v[3]]
            return False if False in rs else None if None in rs else True
    return empty_value(p, v, ty)


def check_conversions_of_payloads(chk):
    p = chk.P.types
    n = 0
    for im in p.impls:
        if im["trait"].split("::")[-1] != "From":
            continue
        ty = head(p.tys(im["self"]))
        src = p.tys(im["targs"][0]) if im["targs"] else ""
        ks = [k for k in p._by_upath.get(im["items"].get("from"), []) if k in p.rootset]
        if len(ks) != 1 or ty not in p.adts:
            continue
        what = "%s from %s" % (ty.split("::")[-1], src.split("::")[-1])
        fs = chk.fields(p, ty)
        if ty.endswith("::TaskId") and re.search(r"String$|str$", src):
            n += 1
            g = chk.explore(p, ks[0], maxstates=300)
            for kn, v, outs in ends(chk, g, what):
                good = v[0] == "a" and v[1] == ty and equals(p, kn, v[3][fs.index("id")], ARG0)
                chk.ob(what + ": has the given id", good, pv(g.an, v))
                if good:
                    chk.ob(what + ": has no parents", empty_value(p, v[3][fs.index("parents")], "") is True, pv(g.an, v))
        elif ty.endswith("::WorkspaceBuildTargetsResult") and src.endswith("BuildTarget"):
            n += 1
            g = chk.explore(p, ks[0], maxstates=300)
            for kn, v, outs in ends(chk, g, what):
                good = v[0] == "a" and v[1] == ty and one_element(v[3][fs.index("targets")])
                chk.ob(what + ": holds exactly the given target", good, pv(g.an, v))
    chk.floor("conversions of payloads", n, 3)


def one_element(v):
    return v[0] == "a" and v[1] in ("vec", "array") and v[3] == (ARG0,)


def check_request_accessors(chk):
    p = chk.P.server
    N = Names(chk)
    K = Kind(chk, N, "Request")
    g = chk.explore(p, chk.method_root(p, "Request", "id"))
    seen = set()
    for kn, v, outs in ends(chk, g, "Request::id"):
        for i in sorted(possible(kn, ARG0, len(K.vs))):
            seen.add(i)
            chk.ob("Request::id: is the id of %s" % K.name(i), v == fld(ARG0, i, 0), pv(g.an, v))
    g = chk.explore(p, chk.method_root(p, "Request", "params"), maxstates=2000)
    got = {}
    for kn, v, outs in ends(chk, g, "Request::params"):
        for i in sorted(possible(kn, ARG0, len(K.vs))):
            n = K.name(i)
            src = fld(ARG0, i, 2 if n == "Custom" else 1)
            tried = ("app", "serde_json::to_value", (src,))
            for o, pay in results(kn, v):
                if o == OK:
                    got.setdefault(i, set()).add(OK)
                    if n in K.table and not K.table[n][1]:
                        chk.ob("Request::params: is null for " + n, null_value(p, pay), pv(g.an, pay))
                    elif n in K.table or n == "Custom":
                        good = json_ok_of(pay) == src or n == "Custom" and equals(p, kn, pay, src)
                        chk.ob("Request::params: is the JSON of %s's params" % n, good, pv(g.an, pay))
                elif o == ERR:
                    good = contains(pay, lambda x: x == ("fld", tried, 1, 0) or x == tried) or possible(kn, tried, 2) == {1}
                    chk.ob("Request::params: fails for %s only if its params have no JSON" % n, good and n in K.table and K.table[n][1] or good and n == "Custom", pv(g.an, v))
                else:
                    chk.fail("Request::params: cannot tell the outcome for " + n, pv(g.an, v))
    for i, n in enumerate(K.vs):
        chk.ob("Request::params: answers for " + n, OK in got.get(i, ()), "no path succeeds")
        chk.ob("Request::id: answers for " + n, i in seen, "no path returns")


# ---- C21 conversions into messages --------------------------------------------------------------------
def from_impls(chk, p, selfs):
    for im in p.impls:
        if im["trait"].split("::")[-1] != "From":
            continue
        ty = p.tys(im["self"])
        if ty not in selfs or not im["targs"]:
            continue
        ks = [k for k in p._by_upath.get(im["items"].get("from"), []) if k in p.rootset]
        if len(ks) == 1:
            yield ty, p.tys(im["targs"][0]), ks[0]


def check_conversions(chk):
    p = chk.P.server
    N = Names(chk)
    R, F = Kind(chk, N, "Request"), Kind(chk, N, "Notification")
    rid = chk.adt(p, "RequestId")
    n = 0
    A = lambda i: fld(ARG0, 0, i)
    null = [x for x in p.adts if x.endswith("serde_json::Value") or x == "serde_json::Value"]
    for ty, src, key in from_impls(chk, p, (N.msg, N.req, N.notif)):
        T = ty.split("::")[-1]
        last = src.split("::")[-1]
        what = "%s from %s" % (T, re.sub(r"\w+::", "", src))
        tup = re.match(r"\((.*)\)$", src)
        parts = [x.strip() for x in tup.group(1).split(",")] if tup else [src]
        ns = [x.split("::")[-1] for x in parts]
        want = None                                     # ("req"|"notif", variant index, members) / ("resp", id, value) / ("wrap", variant)
        if not tup and src in (N.req, N.notif, N.resp) and T == "Message":
            want = ("wrap", {N.req: N.REQ, N.notif: N.NOTIF, N.resp: N.RESP}[src])
        elif not tup and last in F.table and F.table[last][1]:
            want = ("notif", F.vs.index(last), (ARG0,))
        elif not tup and T == "Notification" and last in ("&str", "str") or not tup and re.search(r"(^|&)(\'?\w* )?str$", src) and T == "Notification":
            want = ("text",)
        elif len(ns) == 2 and re.search(r"str$|String$", parts[0]) and ns[1] == "Value":
            want = ("notif", F.custom, (A(0), A(1)))
        elif len(ns) == 3 and parts[0] == rid and ns[2] == "Value":
            want = ("req", R.custom, (A(0), A(1), A(2)))
        elif len(ns) == 2 and parts[0] == rid and ns[1] in R.table and R.table[ns[1]][1]:
            want = ("req", R.vs.index(ns[1]), (A(0), A(1)))
        elif len(ns) == 2 and parts[0] == rid and T == "Message" and (ns[1].endswith("Result") or ns[1] in ("String", "Value")):
            want = ("resp", A(0), A(1))
        if want is None:
            continue
        n += 1
        g = chk.explore(p, key, maxstates=600)
        es = ends(chk, g, what, panics=want[0] not in ("resp", "text"))
        for kn, v, outs in es:
            if want[0] == "text":
                c = {m for m, x in F.method.items() if holds(kn, ARG0, S(m)) is True}
                var = F.vs[v[2]] if v[0] == "a" and v[1] == N.notif else None
                chk.ob(what + ": names the notification", var is not None and len(c) == 1 and F.method[list(c)[0]] == var, pv(g.an, v))
                continue
            if want[0] == "wrap":
                good = v[0] == "a" and v[1] == N.msg and v[2] == want[1] and equals(p, kn, v[3][0], ARG0)
                chk.ob(what + ": carries what is given as its own kind", good, pv(g.an, v))
                continue
            inner = v
            if T == "Message":
                mv = {"req": N.REQ, "notif": N.NOTIF, "resp": N.RESP}[want[0]]
                good = v[0] == "a" and v[1] == N.msg and v[2] == mv
                chk.ob(what + ": is a %s" % {"req": "request", "notif": "notification", "resp": "response"}[want[0]], good, pv(g.an, v))
                if not good:
                    continue
                inner = v[3][0]
            if want[0] == "resp":
                r = N.bare_response(inner)
                if r is None:
                    chk.fail(what + ": cannot tell the response", pv(g.an, inner))
                    continue
                chk.ob(what + ": has the given id", r["id"] == want[1], pv(g.an, r["id"]))
                res = r["result"]
                x = res[3][0] if is_some(res) else None
                chk.ob(what + ": has the given value as result", x is not None and (json_ok_of(x) == want[2] or ns[1] == "Value" and x == want[2]), pv(g.an, res))
                chk.ob(what + ": is a success", is_none(r["error"]), pv(g.an, r["error"]))
                continue
            K = R if want[0] == "req" else F
            good = inner[0] == "a" and inner[1] == K.ty and inner[2] == want[1]
            chk.ob(what + ": is %s" % K.vs[want[1]], good, pv(g.an, inner))
            if good:
                for i, (x, y) in enumerate(zip(inner[3], want[2])):
                    chk.ob(what + ": carries %s unchanged" % ("the id" if K.req and i == 0 else "what is given"), equals(p, kn, x, y), pv(g.an, x))
    chk.floor("conversions", n, 40)


# ---- C22 defaults ---------------------------------------------------------------------------------------
def check_defaults(chk):
    p = chk.P.types
    n = 0
    for im in p.impls:
        if im["trait"].split("::")[-1] != "Default":
            continue
        ty = head(p.tys(im["self"]))
        a = p.adts.get(ty)
        short = ty.split("::")[-1]
        ks = [k for k in p._by_upath.get(im["items"].get("default"), []) if k in p.rootset]
        if not a or len(ks) != 1:
            continue
        g = chk.explore(p, ks[0], maxstates=300)
        if a["kind"] == "enum":
            if short in OWN_DEFAULT:
                n += 1
                for kn, v, outs in ends(chk, g, short + "::default"):
                    chk.ob("%s::default: is %s" % (short, OWN_DEFAULT[short]), v[0] == "a" and v[1] == ty and a["variants"][v[2]]["name"] == OWN_DEFAULT[short], pv(g.an, v))
            continue
        n += 1
        for kn, v, outs in ends(chk, g, short + "::default"):
            if v[0] != "a" or v[1] != ty:
                chk.fail(short + "::default: cannot tell what it is", pv(g.an, v))
                continue
            for i, x in enumerate(v[3]):
                fn = a["variants"][0]["fields"][i]["name"]
                r = claims(p, x)
                chk.ob("%s::default: %s is unset" % (short, fn), r is False, "it is %s" % pv(g.an, x))
    chk.floor("defaults", n, 24)


ENUMS = set(CODES) | set(TAGS)


def claims(p, v):
    """Does the default value claim something: True / False / None (cannot tell)."""
    if v[0] == "i":
        return v[1] != 0
    if v[0] == "s":
        return v[1] != ""
    if v[0] == "app":
        return None
    if v[0] == "a" and v[1] in ("vec", "array"):
        return bool(v[3])
    if v[0] == "a" and isinstance(v[1], str):
        if v[1] == OPTION:
            return v[2] != 0
        a = p.adts.get(v[1])
        if v[1].endswith("Value"):
            return not null_value(p, v)
        s = v[1].split("::")[-1]
        if a and a["kind"] == "enum":
            if s in OWN_DEFAULT:
                return a["variants"][v[2]]["name"] != OWN_DEFAULT[s]
            return False if s in ENUMS else None
        rs = [claims(p, x) for x in v[3]]
        return True if True in rs else None if None in rs else False
    return None


# ---- C24 request ids ------------------------------------------------------------------------------------
NUMBER = re.compile(r"^[ui](8|16|32|64|128|size)$")
TEXT = re.compile(r"(^|::)String$|(^|[& ])str$|Cow<.*str>$|Box<str>$|Arc<str>$")


class Id:
    """RequestId: the sorts of id it has, as (path of (variant, field) steps to the number or text, sort)."""

    def __init__(self, chk):
        self.chk, self.p = chk, chk.P.server
        self.ty = chk.adt(self.p, "RequestId")
        self.leaves = list(self.walk(self.ty, ()))
        sorts = sorted(s for _, s in self.leaves)
        if sorts != ["number", "text"]:
            chk.fail("RequestId: is a number or a text", "its values are: %s" % ", ".join(map(str, sorts)))
        self.types = sorted(self.tys(self.ty, set()))

    def walk(self, ty, path):
        a = self.p.adts.get(ty)
        if a is None or TEXT.search(ty):
            yield path, "number" if NUMBER.match(ty) else "text" if TEXT.search(ty) else ty
            return
        for i, v in enumerate(a["variants"]):
            if len(v["fields"]) != 1:
                yield path + ((ty, i),), "%s::%s" % (ty.split("::")[-1], v["name"])
                continue
            yield from self.walk(self.p.tys(v["fields"][0]["ty"]), path + ((ty, i),))

    def tys(self, ty, out):
        a = self.p.adts.get(ty)
        if a and not TEXT.search(ty) and ty not in out:
            out.add(ty)
            for v in a["variants"]:
                for f in v["fields"]:
                    self.tys(self.p.tys(f["ty"]), out)
        return out

    def term(self, path, base):
        for _, i in path:
            base = fld(base, i, 0)
        return base

    def split(self, v):
        """An id value -> (sort, the number or text inside) or None."""
        for full, s in self.leaves:
            path = full[[ty for ty, _ in full].index(v[1]):] if v[0] == "a" and v[1] in [ty for ty, _ in full] else full
            x = v
            for ty, i in path:
                if x[0] == "a" and x[1] == ty and x[2] == i:
                    x = x[3][0]
                else:
                    x = None
                    break
            if x is not None:
                return s, x
        return None

    def rank(self, ty):
        """(sort, variant number at the first choice below ty)"""
        for path, s in self.leaves:
            for t, i in path[[x for x, _ in path].index(ty):]:
                if len(self.p.adts[t]["variants"]) > 1:
                    yield s, i
                    break

    def sorts(self, kn, base, at=None):
        out = set()
        for path, s in self.leaves:
            if at is not None:
                if at not in [ty for ty, _ in path]:
                    continue
                path = path[[ty for ty, _ in path].index(at):]
            b, good = base, True
            for ty, i in path:
                n = len(self.p.adts[ty]["variants"])
                if n > 1 and i not in possible(kn, b, n):
                    good = False
                b = fld(b, i, 0)
            if good:
                out.add((s, b))
        return out


def check_ids(chk):
    p = chk.P.server
    D = Id(chk)
    # written as the same JSON value
    g, outs = encodings(chk, p, type_impl(chk, p, "Serialize", "serialize", D.ty), "RequestId encoder")
    seen = set()
    for o in outs:
        for s, t in D.sorts(o.kn, ARG0):
            k, x = o.form
            seen.add(s)
            if k == "as":
                good = x[1] == t and bool(NUMBER.match(x[0]) if s == "number" else TEXT.search(x[0]))
            elif k == "str":
                good = s == "text" and x == t
            elif k == "scalar":
                good = s == "number" and re.match(r"[ui]\d", x[0]) and len(x) > 1 and (x[1] == t or lossless(x[1], t))
            else:
                good = False
            chk.ob("RequestId encoder: a %s id is written as it is" % s, good, "written as %s" % (x,))
    for _, s in D.leaves:
        chk.ob("RequestId encoder: a %s id can be written" % s, s in seen, "no path")
    decode_id(chk, p, D)
    n = 0
    for ty, src, key in from_impls(chk, p, (D.ty,)):
        want = "number" if NUMBER.match(src) else "text" if TEXT.search(src) else None
        if want is None:
            continue
        n += 1
        what = "RequestId from %s" % src.split("::")[-1]
        g = chk.explore(p, key, maxstates=300)
        for kn, v, outs in ends(chk, g, what):
            x = D.split(v)
            chk.ob(what + ": is a %s id with the given value" % want, x is not None and x[0] == want and (equals(p, kn, x[1], ARG0) or lossless(x[1], ARG0)), pv(g.an, v))
    chk.floor("conversions into ids", n, 2)
    for ty in D.types:
        structural_eq(chk, p, ty)
        structural_hash(chk, p, ty)
        agreeing_order(chk, p, D, ty)


CMP = re.compile(r"(Ord|PartialOrd)(<.*>)?( for [^>]+)?>?::(cmp|partial_cmp)(::<.*>)?$")
CMPFN = {"Less": -1, "Equal": 0, "Greater": 1}


def agreeing_order(chk, p, D, ty):
    """The order of ids agrees with their equality: values of one sort compare by value, a number and a text compare
    strictly and the other way round when swapped."""
    ordering = [a for a in p.adts if a.endswith("cmp::Ordering")]
    for tr, m in (("Ord", "cmp"), ("PartialOrd", "partial_cmp")):
        for items in impl_keys(p, tr, ty):
            for k in items.get(m, []):
                what = "%s::%s" % (ty.split("::")[-1], m)
                g = chk.explore(p, k, maxstates=500)
                dirs, cross, n = {}, {}, 0
                for kn, v, outs in ends(chk, g, what):
                    n += 1
                    if m == "partial_cmp":
                        if not is_some(v):
                            chk.fail(what + ": compares any two ids", pv(g.an, v))
                            continue
                        v = v[3][0]
                    flip = 1
                    while v[0] == "app" and v[1].endswith("Ordering::reverse"):
                        flip, v = -flip, v[2][0]
                    const = CMPFN.get(p.adts[v[1]]["variants"][v[2]]["name"]) if v[0] == "a" and v[1] in ordering else None
                    args = v[2] if v[0] == "app" and CMP.search(v[1]) and len(v[2]) == 2 else None
                    for sa, xa in D.sorts(kn, ARG0, ty):
                        for sb, xb in D.sorts(kn, ARG1, ty):
                            if sa == sb:
                                if args == (xa, xb):
                                    d = flip
                                elif args == (xb, xa):
                                    d = -flip
                                elif const is not None and any(f[0] in (eqterm(xa, xb), eqterm(xb, xa)) and f[1:] == ("=", I(1)) for f in kn):
                                    d = 0
                                    chk.ob(what + ": equal ids compare equal", const == 0, "a %s id: %s" % (sa, pv(g.an, v)))
                                    continue
                                else:
                                    chk.fail(what + ": ids of one sort are ordered by their value", "two %s ids: %s" % (sa, pv(g.an, v)))
                                    continue
                                chk.ob(what + ": ids of one sort are ordered by their value", dirs.setdefault(sa, d) == d, "two %s ids are compared both ways round" % sa)
                            else:
                                if const is not None:
                                    c = const * flip
                                elif args is not None and all(a[0] == "discr" for a in args) and args[0] != args[1]:
                                    i, j = dict(D.rank(ty))[sa], dict(D.rank(ty))[sb]
                                    c = flip * (i > j or -1) * (1 if contains(args[0], lambda z: z == ARG0) else -1)
                                else:
                                    chk.fail(what + ": a number and a text compare strictly", "%s against %s id: %s" % (sa, sb, pv(g.an, v)))
                                    continue
                                chk.ob(what + ": a number and a text compare strictly", c != 0, "%s against %s id compare as equal" % (sa, sb))
                                cross[(sa, sb)] = c
                for (sa, sb), c in sorted(cross.items()):
                    chk.ob(what + ": swapping the ids reverses their order", cross.get((sb, sa)) == -c, "%s against %s: %s, swapped: %s" % (sa, sb, c, cross.get((sb, sa))))
                chk.ob(what + ": is defined", n > 0)


def lossless(x, t):
    m = re.match(r"cast:([iu])(\d+|size)->([iu])(\d+|size)$", x[1]) if x[0] == "app" else None
    if not m or x[2][0] != t:
        return False
    a, b = (int(w) if w != "size" else 64 for w in (m.group(2), m.group(4)))
    return a <= b and m.group(1) == m.group(3) or m.group(1) == "u" and a < b


def decode_id(chk, p, D):
    nm = "RequestId decoder"
    g = chk.explore(p, type_impl(chk, p, "Deserialize", "deserialize", D.ty), opaque=opaque_de, maxstates=2000)
    val = [a for a in p.adts if a.endswith("serde_json::Value") or a == "serde_json::Value"]
    vv = chk.variants(p, val[0]) if len(val) == 1 else []
    ok_sorts, visited = set(), []

    # q = (kn, ((result, type), ...))
    def step(q, e, fail):
        kn, tries = q
        if e[0] == "assume":
            return (learn(kn, e), tries)
        if e[0] == "call" and DET.search(e[2]):
            return (kn, tries + ((e[4], de_type(e)),))
        if e[0] == "deser" and e[2] == ARG0:
            visited.append((e[1], e[4]))
            return None
        if e[0] == "panic":
            return None
        if e[0] != "ret":
            return q
        for v, pay in results(kn, e[1]):
            if v == OK:
                x = D.split(pay)
                if x is None:
                    r = [t for r, t in tries if pay == ok(r)]
                    if r and any(r[0] == t or r[0].endswith(t) for t in D.types):
                        continue                              # handed on to a part, which is examined itself
                    fail("cannot tell what is decoded", pv(g.an, pay))
                    continue
                s, y = x
                good = None
                for r, t in tries:
                    if y == ok(r):
                        good = bool(NUMBER.match(t) if s == "number" else TEXT.search(t))
                    elif t.endswith("Value") and vv:
                        i = vv.index("String")
                        if y == fld(ok(r), i, 0):
                            good = s == "text"
                        elif contains(y, lambda z: z == fld(ok(r), i, 0)):
                            good = False
                        elif contains(y, lambda z: z == fld(ok(r), vv.index("Number"), 0)):
                            good = s == "number" and not narrowed(kn, y)
                if good is None:
                    fail("cannot tell where the %s comes from" % s, pv(g.an, pay))
                elif not good:
                    fail("reads something else as a %s id" % s, pv(g.an, pay))
                else:
                    ok_sorts.add(s)
            elif v == ERR:
                if any(t.endswith("Value") for _, t in tries):
                    for r, t in tries:
                        if t.endswith("Value") and vv and possible(kn, ok(r), len(vv)) == {vv.index("String")} and possible(kn, r, 2) != {1}:
                            fail("refuses a text", pv(g.an, e[1]))
                elif not (tries and tries[0][1].split("::")[-1].startswith("Content") and possible(kn, tries[0][0], 2) == {1}):
                    for s in ("number", "text"):
                        rx = NUMBER.match if s == "number" else TEXT.search
                        if not any(rx(t) and possible(kn, r, 2) == {1} for r, t in tries):
                            fail("refuses without trying a %s" % s, pv(g.an, e[1]))
            else:
                fail("cannot tell the outcome", pv(g.an, e[1]))
        return None
    chk.simulate(g, (frozenset(), ()), step, nm)
    for kind, vis in visited:
        decode_id_visitor(chk, p, D, nm, kind, vis, ok_sorts)
    for s in ("number", "text"):
        chk.ob("%s: a %s is read as a %s id" % (nm, s, s), s in ok_sorts, "no path")


def narrowed(kn, y):
    """Is the number squeezed into a smaller type without a check?"""
    def bad(z):
        if z[0] != "app":
            return False
        m = re.match(r"cast:([iu])(\d+|size)->([iu])(\d+|size)$", z[1])
        return bool(m) and not lossless(z, z[2][0]) and not any(contains(f[0], lambda w: w == z[2][0]) for f in kn if f[0][0] != "discr")
    return contains(y, bad)


def decode_id_visitor(chk, p, D, nm, kind, vis, ok_sorts):
    if kind != "deserialize_any":
        raise Anchor("%s: read by %s" % (nm, kind))
    have = {}
    for im in p.impls:
        if im["trait"].split("::")[-1] == "Visitor" and p.tys(im["self"]) == vis:
            have.update(im["items"])
    for m, up in sorted(have.items()):
        s = "number" if re.match(r"visit_[iu]\d+$", m) else "text" if m in ("visit_str", "visit_string", "visit_borrowed_str") else None
        if not m.startswith("visit_"):
            continue
        ks = [k for k in p._by_upath.get(up, []) if k in p.rootset]
        if len(ks) != 1:
            raise Anchor("%s: %s" % (nm, m))
        g = chk.explore(p, ks[0], maxstates=500)
        for kn, v, outs in ends(chk, g, "%s: %s" % (nm, m)):
            for o, pay in results(kn, v):
                x = D.split(pay) if o == OK else None
                if o == OK and x is None:
                    chk.fail("%s: %s: cannot tell what is decoded" % (nm, m), pv(g.an, pay))
                elif o == OK:
                    same = equals(p, kn, x[1], ARG1) or s == "number" and contains(x[1], lambda z: z == ARG1) and not narrowed(kn, x[1])
                    chk.ob("%s: a %s is read as a %s id" % (nm, s or m[6:], s or "?"), s == x[0] and same, pv(g.an, pay))
                    ok_sorts.add(x[0])
                elif o == ERR and s == "text":
                    chk.fail("%s: refuses a text" % nm, pv(g.an, v))
    chk.ob("%s: takes every integer" % nm, "visit_i64" in have and "visit_u64" in have, "visits only " + ", ".join(sorted(have)))


# ---- equality, hashing and cloning are member-wise ------------------------------------------------------
def impl_keys(p, trait, ty):
    for im in p.impls:
        if im["trait"].split("::")[-1] == trait and head(p.tys(im["self"])) == ty:
            yield {n: [k for k in p._by_upath.get(up, []) if k in p.rootset] for n, up in im["items"].items()}


def structural_eq(chk, p, ty):
    """Two values are equal exactly if they are of the same variant and all their members are equal."""
    a = p.adts[ty]
    short = ty.split("::")[-1]
    n = 0
    for items in impl_keys(p, "PartialEq", ty):
        for item, inv in (("eq", False), ("ne", True)):
            for k in items.get(item, []):
                n += 1
                what = "%s::%s" % (short, item)
                g = chk.explore(p, k, maxstates=3000)
                for kn, v, outs in ends(chk, g, what):
                    judge_eq(chk, p, g, a, ty, what, kn, v, inv)
    return n


def judge_eq(chk, p, g, a, ty, what, kn, v, inv):
    neg = inv
    while v[0] == "app" and v[1] == "not" or v[0] == "not":
        v, neg = (v[2][0] if v[0] == "app" else v[1]), not neg
    if v[0] == "i":
        cases = [(kn, bool(v[1]) != neg)]
    else:
        cases = [(learn(kn, ("assume", v, "=", I(1))), not neg), (learn(kn, ("assume", v, "=", I(0))), neg)]
    nv = len(a["variants"])
    for kn2, res in cases:
        if contradictory(kn2):
            continue
        verdict = known_equal(p, a, ty, kn2)
        if verdict is None:
            chk.fail(what + ": says %s without comparing everything" % ("equal" if res else "different"), "%s; known: %s" % (pv(g.an, v), "; ".join("%s%s" % (pv(g.an, f[0]), "" if f[1] == "=" and f[2] == I(1) else " is not" if f[1] == "=" else "") for f in sorted(kn2, key=str))))
        else:
            chk.ob("%s: is true exactly when all members are equal" % what, verdict == res, "says %s" % res)


def contradictory(kn):
    return any(f[1] == "=" and f[0][0] == "eq" and f[0][1][0] == "i" and f[0][2][0] == "i" and (f[0][1] == f[0][2]) != (f[2] == I(1)) for f in kn)


def eqterm(x, y):
    return ("eq", x, y), ("eq", y, x)


def known_equal(p, a, ty, kn):
    """Do the facts say that arg0 and arg1 are equal: True / False / None."""
    def truth(x, y):
        for t in eqterm(x, y):
            h = holds(kn, t, I(1))
            if h is None:
                h0 = holds(kn, t, I(0))
                h = None if h0 is None else not h0
            if h is not None:
                return h
        return None
    w = truth(ARG0, ARG1)
    if w is not None:
        return w
    nv = len(a["variants"])
    i = None
    if nv > 1:
        s0, s1 = possible_of(p, kn, ARG0, ty), possible_of(p, kn, ARG1, ty)
        if not s0 & s1:
            return False
        d = truth(("discr", ARG0), ("discr", ARG1))
        if d is False:
            return False
        if len(s0) == 1 and (d or s0 == s1):
            i = list(s0)[0]
        elif len(s1) == 1 and d:
            i = list(s1)[0]
        elif d and all(not a["variants"][j]["fields"] for j in s0 & s1):
            return True
        else:
            return None
    else:
        i = 0
    ts = [truth(fld(ARG0, i, j), fld(ARG1, i, j)) for j in range(len(a["variants"][i]["fields"]))]
    return False if False in ts else True if all(ts) else None


def structural_hash(chk, p, ty):
    """What is fed to the hasher comes from the value alone, so equal values hash equally."""
    short = ty.split("::")[-1]
    for items in impl_keys(p, "Hash", ty):
        for k in items.get("hash", []):
            what = short + "::hash"
            g = chk.explore(p, k, maxstates=500)

            def step(kn, e, fail):
                if e[0] == "call" and re.search(r"Hash.*::hash(::<.*>)?$|Hasher::write\w*$", e[2]):
                    x = e[3][0] if "Hasher" not in e[2].split(">::")[0] or "Hash>" in e[2] else e[3][1]
                    if contains(x, lambda z: z[0] in ("res", "out", "old", "g") or z[0] == "app" and re.match(r"cast:[*&]", z[1])):
                        fail("hashes something else than the value", pv(g.an, x))
                    return kn
                if e[0] in ("panic", "ret"):
                    return None
                return kn
            chk.simulate(g, frozenset(), step, what)
            chk.ob(what + ": depends on the value only")


def check_equality(chk):
    n = m = 0
    for p in (chk.P.types, chk.P.server):
        done = set()
        for im in p.impls:
            t = im["trait"].split("::")[-1]
            ty = head(p.tys(im["self"]))
            a = p.adts.get(ty)
            if not a or ty.endswith("_::__Field") or (t, ty) in done:
                continue
            done.add((t, ty))
            if t == "PartialEq":
                n += structural_eq(chk, p, ty)
            elif t == "Clone":
                for items in impl_keys(p, "Clone", ty):
                    for k in items.get("clone", []):
                        m += 1
                        what = ty.split("::")[-1] + "::clone"
                        g = chk.explore(p, k, maxstates=2000)
                        for kn, v, outs in ends(chk, g, what):
                            if a["kind"] == "enum":
                                kn = discr_facts(p, kn, ty)
                            chk.ob(what + ": is the same value", equals(p, kn, v, ARG0), pv(g.an, v))
    chk.floor("equalities", n, 22)
    chk.floor("clones", m, 30)


def discr_facts(p, kn, ty):
    """Discriminants as variant numbers."""
    s = possible_of(p, kn, ARG0, ty)
    if len(s) == 1:
        return frozenset(f for f in kn if f[0] != ("discr", ARG0)) | {(("discr", ARG0), "=", I(list(s)[0]))}
    return kn


# ---- C25 default handlers -------------------------------------------------------------------------------
EFFECT = re.compile(r"crossbeam_channel::|std::(thread|process|fs|net|io|sync)::|::lock$|::recv|::send$")


def check_handlers(chk):
    p = chk.P.types
    n = 0
    for k in p.roots:
        f = p.fns[k]
        m = re.search(r"(^|::)BuildServer::(\w+)$", f["path"])
        if not m or f.get("trait") or f["closure"]:
            continue
        n += 1
        what = "BuildServer::" + m.group(2)
        g = chk.explore(p, k, maxstates=600)
        for e in g.events():
            if e[0] in ("print", "write", "write_partial", "flush", "leak", "maypanic", "alloc", "read"):
                chk.fail("%s: does nothing but answer" % what, describe(g, e) or str(e[:2]))
            if e[0] == "call" and EFFECT.search(e[1]):
                chk.fail("%s: does nothing but answer" % what, describe(g, e) or "")
        for kn, v, outs in ends(chk, g, what):
            if v == UNIT:
                continue
            for o, pay in results(kn, v):
                if o == OK:
                    chk.ob("%s: succeeds only with an empty result" % what, claims(p, pay) is False or pay == UNIT, pv(g.an, v))
                elif o is None:
                    chk.fail("%s: answers" % what, pv(g.an, v))
                else:
                    chk.ob("%s: answers" % what)
    chk.floor("default handlers", n, 15)


# ---- C28 the workspace root -----------------------------------------------------------------------------
def check_root(chk):
    p = chk.P.types
    ty = chk.adt(p, "InitializeBuild")
    i = Fields(chk, ty).index("root_uri")
    if i is None:
        raise Anchor("InitializeBuild: no field for rootUri")
    uri = fld(ARG0, 0, i)
    what = "InitializeBuild::root_path"
    g = chk.explore(p, chk.method_root(p, "InitializeBuild", "root_path"), maxstates=300)
    good = bad = 0
    for kn, v, outs in ends(chk, g, what):
        conv = [f[0][1] for f in kn if f[0][0] == "discr" and f[0][1][0] == "app" and f[0][1][1].endswith("Url::to_file_path")]
        unchanged(chk, p, g, kn, outs, what, Fields(chk, ty))
        x = v
        while x[0] == "app" and x[1].split("::")[-1].split("<")[0] in ("from", "into", "to_path_buf", "new", "to_owned") and len(x[2]) == 1:
            x = x[2][0]
        if x[0] == "fld" and x[1][0] == "app" and x[1][1].endswith("Url::to_file_path") and x[2:] == (0, 0):
            good += 1
            chk.ob(what + ": decodes the root URI", x[1][2] == (uri,), pv(g.an, v))
        elif x[0] == "app" and x[1].endswith("Url::path"):
            bad += 1
            chk.ob(what + ": falls back to the root URI's path", x[2] == (uri,), pv(g.an, v))
            chk.ob(what + ": falls back only if the URI denotes no file path", any(t[2] == (uri,) and possible(kn, t, 2) == {1} for t in conv), "the percent-encoding stays: " + pv(g.an, v))
        else:
            chk.fail(what + ": is the path of the root URI", pv(g.an, v))
    chk.ob(what + ": decodes the root URI", good > 0, "no path does")
    chk.ob(what + ": answers for URIs that denote no file path", bad > 0, "no path does")


# ---- C36 sharing between threads --------------------------------------------------------------------------
SHARED = "Connection IoThreads Message Request RequestId Response ResponseError Notification ProtocolError ExtractError ErrorCode".split()
# traits a user's collections, error handling and logging build on
OFFERED = {"RequestId": "Eq Hash Ord Clone Debug Display", "Message": "Clone Debug", "Request": "Clone Debug", "Notification": "Clone Debug",
           "Response": "Clone Debug", "ResponseError": "Clone Debug", "ProtocolError": "Error Display Debug Clone", "ExtractError": "Error Display Debug"}


def check_sharing(chk):
    n = 0
    for p in (chk.P.types, chk.P.server):
        mine = [(t, a) for t, a in p.adts.items() if a["local"] and a["pub"] and "_::" not in t and (p is chk.P.types or t.split("::")[-1] in SHARED)]
        for t, a in sorted(mine):
            n += 1
            short = t.split("::")[-1]
            chk.ob(short + ": can be moved to another thread", a["send"] is True, "it is not Send: a member is tied to its thread")
            chk.ob(short + ": can be used by several threads", a["sync"] is True, "it is not Sync: a member can be changed through a shared reference without synchronisation")
        for im in p.impls:
            if re.search(r"marker::(Send|Sync)$", im["trait"]):
                chk.fail("%s is asserted for %s" % (im["trait"].split("::")[-1], p.tys(im["self"]).split("::")[-1]), "thread safety must follow from the members; an unsafe impl lets data races compile")
    p = chk.P.server
    have = set()
    for im in p.impls:
        have.add((head(p.tys(im["self"])).split("::")[-1], im["trait"].split("::")[-1]))
    for ty, traits in OFFERED.items():
        for t in traits.split():
            chk.ob("%s: implements %s" % (ty, t), (ty, t) in have, "no implementation")
    chk.floor("public types", n, 50)


# ---- C37 texts ------------------------------------------------------------------------------------
def check_display(chk):
    p = chk.P.server
    N = Names(chk)
    # request ids
    D = Id(chk)
    g, out = printed(chk, p, type_impl(chk, p, "Display", "fmt", D.ty), "RequestId")
    seen = set()
    for kn, ps in out:
        for sort, t in D.sorts(kn, ARG0):
            seen.add(sort)
            want = (t,) if sort == "number" else (models.mk("fmt_debug", t),)
            chk.ob("RequestId: a number prints as itself" if sort == "number" else "RequestId: a text prints in quotes, apart from every number",
                   ps == want or sort == "number" and len(ps) == 1 and lossless(ps[0], t), ", ".join(pv(g.an, x) for x in ps))
    for _, s in D.leaves:
        chk.ob("RequestId: a %s prints" % s, s in seen, "no path")
    # protocol errors
    pe = chk.adt(p, "ProtocolError")
    f = chk.fields(p, pe)
    g, out = printed(chk, p, type_impl(chk, p, "Display", "fmt", pe), "ProtocolError")
    for kn, ps in out:
        chk.ob("ProtocolError: prints its text", len(f) == 1 and ps == (fld(ARG0, 0, 0),), ", ".join(pv(g.an, x) for x in ps))
    for _, src, key in from_impls(chk, p, {pe}):
        if not src.endswith("anyhow::Error"):
            continue
        what = "From<%s> for ProtocolError" % src
        g = chk.explore(p, key, maxstates=300)
        for kn, v, outs in ends(chk, g, what):
            x = v[3][0] if v[0] == "a" and v[1] == pe and len(v[3]) == 1 else v
            chk.ob(what + ": keeps the text of the error", contains(x, lambda y: y == ARG0), pv(g.an, v))
    # extraction errors
    n = 0
    for im in p.impls:
        if im["trait"].split("::")[-1] != "Display" or head(p.tys(im["self"])).split("::")[-1] != "ExtractError":
            continue
        sty = p.tys(im["self"])
        which = "Request" if "Request" in sty else "Notification" if "Notification" in sty else None
        if which is None:
            continue
        n += 1
        K = Kind(chk, N, which)
        ee = head(sty)
        vs = chk.variants(p, ee)
        a = p.adts[ee]
        what = "ExtractError<%s>" % which
        if "MethodMismatch" not in vs or "JsonError" not in vs:
            raise Anchor(what + ": no variants MethodMismatch and JsonError")
        MM, JE = vs.index("MethodMismatch"), vs.index("JsonError")
        je = [x["name"] for x in a["variants"][JE]["fields"]]
        g, out = printed(chk, p, [k for k in p._by_upath.get(im["items"]["fmt"], []) if k in p.rootset][0], what)
        seen = set()
        for kn, ps in out:
            txt = ", ".join(pv(g.an, x) for x in ps)
            k = possible(kn, ARG0, len(vs))
            if MM in k:
                msg = fld(ARG0, MM, 0)
                for i in possible(kn, msg, len(K.vs)):
                    seen.add(i)
                    if i == K.custom:
                        chk.ob(what + ": a mismatch names the message's method", any(contains(x, lambda y: y == fld(msg, i, K.off)) for x in ps), txt)
                    elif K.name(i) in K.table:
                        m = K.table[K.name(i)][0]
                        chk.ob(what + ": a mismatch names the message's method", any(contains(x, lambda y: y[0] == "s" and bool(re.search(r"(?<![\w/])%s(?![\w/])" % re.escape(m), y[1]))) for x in ps), "%s: %s" % (K.name(i), txt))
            if JE in k:
                seen.add("json")
                for nm in je:
                    chk.ob("%s: a payload that does not fit is reported with its %s" % (what, nm), any(contains(x, lambda y: y == fld(ARG0, JE, je.index(nm))) for x in ps), txt)
        chk.ob(what + ": prints for every message", "json" in seen and len(seen) == len(K.vs) + 1, str(sorted(map(str, seen))))
    chk.floor("texts of extraction errors", n, 2)
    # task status
    p = chk.P.types
    ty = chk.adt(p, "TaskStatus")
    vs = chk.variants(p, ty)
    for t in ("Display", "Debug"):
        g, out = printed(chk, p, type_impl(chk, p, t, "fmt", ty), "TaskStatus " + t)
        for kn, ps in out:
            for i in possible_of(p, kn, ARG0, ty):
                if t == "Debug" and ARG0 in ps:         # as Display prints it
                    continue
                words = set(re.findall(r"\w+", ps[0][1])) if len(ps) == 1 and ps[0][0] == "s" else set()
                chk.ob("TaskStatus %s: prints the name of its state" % t, vs[i] in words and not words & (set(vs) - {vs[i]}), "%s: %s" % (vs[i], ", ".join(pv(g.an, x) for x in ps)))
