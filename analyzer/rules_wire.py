"""C17 member names, C18 optional members, C19 codes and tags, C26 wide integers: the types that travel, against the protocol."""
from rules_message import *

# type -> members as the protocol has them: NAME[=rust field][mark]:type
# marks: none  always written, required when read
#        ?o ?s ?v ?n ?k  left out when None / "" / [] / null / no kind; may be absent when read
#        ~  always written; may be absent when read
SPEC = {
    "BuildTargetCapabilities": "canCompile:bool canTest:bool canRun:bool canDebug:bool",
    "BuildTargetCleanCache": "targets:[BuildTargetIdentifier]",
    "BuildTargetCleanCacheResult": "message?o:string cleaned:bool",
    "BuildTargetCompile": "targets=target:[BuildTargetIdentifier] originId?o:string arguments?o:[string]",
    "BuildTargetCompileResult": "originId?o:string statusCode:int dataKind?o:string data?o:any",
    "BuildTargetDependencyModules": "targets:[BuildTargetIdentifier]",
    "BuildTargetDependencyModulesResult": "items:[DependencyModulesItem]",
    "DependencyModule": "name:string version:string dataKind?o:string data?o:any",
    "DependencyModulesItem": "target:BuildTargetIdentifier modules:[DependencyModule]",
    "BuildTargetDependencySources": "targets=text_document:[BuildTargetIdentifier]",
    "BuildTargetDependencySourcesResult": "items:[DependencySourcesItem]",
    "DependencySourcesItem": "target:BuildTargetIdentifier sources:[string]",
    "BuildTargetDidChange": "changes:[BuildTargetEvent]",
    "BuildTargetEvent": "target:BuildTargetIdentifier kind?o:BuildTargetEventKind data?o:any",
    "BuildTargetIdentifier": "uri:string",
    "BuildTargetInverseSourcesResult": "targets:[BuildTargetIdentifier]",
    "TextDocumentInverseSources": "textDocument:TextDocumentIdentifier",
    "BuildTargetResources": "targets:[BuildTargetIdentifier]",
    "BuildTargetResourcesResult": "items:[Resources]",
    "Resources": "target:BuildTargetIdentifier resources:[string]",
    "BuildTargetRun": "target:BuildTargetIdentifier originId?o:string arguments?o:[string] dataKind?o:string data?o:any",
    "BuildTargetRunResult": "originId?o:string statusCode:int",
    "BuildTargetSources": "targets:[BuildTargetIdentifier]",
    "BuildTargetSourcesResult": "items:[SourcesCollection]",
    "Sources": "uri:string kind:SourceKind generated:bool",
    "SourcesCollection": "target:BuildTargetIdentifier sources:[Sources]",
    "BuildTargetTest": "targets=target:[BuildTargetIdentifier] originId?o:string arguments?o:[string] dataKind?o:string data?o:any",
    "BuildTargetTestResult": "originId?o:string statusCode:int dataKind?o:string data?o:any",
    "ClientCapabilities": "languageIds:[string]",
    "DebugSessionStart": "targets~:[BuildTargetIdentifier] dataKind~:string data?n:any",
    "DebugSessionStartResult": "uri:string",
    "InitializeBuild": "displayName:string version?s:string bspVersion?s:string rootUri:string capabilities~:ClientCapabilities data?o:any",
    "InitializeBuildResult": "displayName:string version:string bspVersion:string capabilities:ServerCapabilities data?o:any",
    "LogMessage": "type=typ:MessageType task?o:TaskId originId?o:string message:string",
    "ShowMessage": "type=typ:MessageType message:string task?o:TaskId originId?o:string",
    "CompileProvider": "languageIds:[string]",
    "DebugProvider": "languageIds:[string]",
    "RunProvider": "languageIds:[string]",
    "TestProvider": "languageIds:[string]",
    "PublishDiagnostics": "textDocument:TextDocumentIdentifier buildTarget:BuildTargetIdentifier originId?o:string diagnostics:[Diagnostic] reset:bool",
    "ServerCapabilities": "compileProvider?o:CompileProvider testProvider?o:TestProvider runProvider?o:RunProvider debugProvider?o:DebugProvider "
                          "inverseSourcesProvider?o:bool dependencySourcesProvider?o:bool dependencyModulesProvider?o:bool resourcesProvider?o:bool "
                          "canReload?o:bool buildTargetChangedProvider?o:bool",
    "TaskStart": "taskId~:TaskId eventTime?o:int message?s:string dataKind?k:TaskDataKind data?n:any",
    "TaskProgress": "taskId~:TaskId eventTime?o:int message?s:string total?o:int progress?o:int unit?s:string dataKind?k:TaskDataKind data?n:any",
    "TaskFinish": "taskId~:TaskId eventTime?o:int message?s:string status~:TaskStatus dataKind?k:TaskDataKind data?n:any",
    "TaskId": "id~:string parents?v:[string]",
    "BuildTarget": "id:BuildTargetIdentifier displayName?o:string baseDirectory?o:string tags:[BuildTargetTag] capabilities:BuildTargetCapabilities "
                   "languageIds:[string] dependencies:[BuildTargetIdentifier]",
    "WorkspaceBuildTargetsResult": "targets:[BuildTarget]",
}
RULES = {"o": "option", "s": "string", "v": "vec", "n": "null", "k": "kind"}
CODES = {
    "SourceKind": {"File": 1, "Directory": 2},
    "MessageType": {"Error": 1, "Warning": 2, "Info": 3, "Log": 4},
    "BuildTargetEventKind": {"Created": 1, "Changed": 2, "Deleted": 3},
    "TaskStatus": {"Ok": 1, "Error": 2, "Cancelled": 3},
}
TAGS = {
    "BuildTargetTag": {"Libary|Library": "library", "Application": "application", "Test": "test", "IntegrationTest": "integration-test",
                       "Benchmark": "benchmark", "NoIDE": "no-ide", "Manual": "manual"},
    "TaskDataKind": {"CompileTask": "compile-task", "CompileReport": "compile-report", "TestTask": "test-task", "TestReport": "test-report",
                     "TestStart": "test-start", "TestFinish": "test-finish"},
}
WIDE = [("TaskStart", "event_time"), ("TaskFinish", "event_time"), ("TaskProgress", "event_time"), ("TaskProgress", "total"), ("TaskProgress", "progress")]


class Member:
    def __init__(self, text):
        m = re.match(r"(\w+)(?:=(\w+))?(\?\w|~)?:(.+)$", text)
        self.wire, self.field, mark, self.type = m.groups()
        self.field = self.field or re.sub(r"([A-Z])", lambda x: "_" + x.group(1).lower(), self.wire)
        self.rule = RULES[mark[1]] if mark and mark[0] == "?" else None
        self.lenient = bool(mark)


def members(name):
    return [Member(t) for t in SPEC[name].split()]


def json_type(t):
    """The JSON type a Rust type has on the wire; None if unknown."""
    t = t.strip()
    m = re.match(r"(?:std|core|alloc)::(?:option::Option|boxed::Box|sync::Arc|rc::Rc)<(.*)>$", t)
    if m:
        return json_type(m.group(1))
    m = re.match(r"(?:std|alloc)::vec::Vec<(.*)>$", t)
    if m:
        x = json_type(m.group(1))
        return "[%s]" % x if x else None
    if re.match(r"((std|alloc)::string::String|str|&.*str|lsp_types::Url|url::Url|std::borrow::Cow<.*str>|std::path::PathBuf)$", t):
        return "string"
    if t == "bool":
        return "bool"
    if re.match(r"[ui](8|16|32|64|128|size)$", t):
        return "int"
    if t == "serde_json::Value":
        return "any"
    if re.match(r"[\w:]+$", t) and "::" in t:
        return t.split("::")[-1]
    return None


class Wire:
    """One type: its spec bound to the fields that carry the members."""

    def __init__(self, chk, name):
        self.chk, self.name = chk, name
        self.p = p = chk.P.types
        self.ty = chk.adt(p, name)
        self.members = members(name)
        self.fnames = chk.fields(p, self.ty)
        self.ftypes = [p.tys(f["ty"]) for f in p.adts[self.ty]["variants"][0]["fields"]]
        self.nm = name + " encoder"
        self.g, self.outs = encodings(chk, p, type_impl(chk, p, "Serialize", "serialize", self.ty), self.nm, maxstates=200000)
        self.objs = [o for o in self.outs if o.form[0] == "object"]
        self.written = {}
        for o in self.objs:
            for w, v in o.form[1]:
                self.written.setdefault(w, set()).add(v)
        self.bind()

    def bind(self):
        """Which field, and which name in today's code, stands for each member of the protocol."""
        for m in self.members:
            m.name = m.wire
            m.index = self.fnames.index(m.field) if m.field in self.fnames else None
            if m.index is None:
                snake = re.sub(r"([A-Z])", lambda x: "_" + x.group(1).lower(), m.wire)
                if snake in self.fnames:
                    m.index = self.fnames.index(snake)
            if m.index is None:
                vs = self.written.get(m.wire, set())
                if len(vs) == 1:
                    v = list(vs)[0]
                    if v[0] == "fld" and v[1][0] == "fld" and v[1][1] == ARG0 and v[2:] == (1, 0) and self.ftypes[v[1][3]].startswith(OPTION + "<"):
                        v = v[1]
                    if v[0] == "fld" and v[1] == ARG0:
                        m.index = v[3]
            if m.index is not None and m.wire not in self.written:
                names = [w for w, vs in self.written.items() if fld(ARG0, 0, m.index) in vs and isinstance(w, str) and w not in [x.wire for x in self.members]]
                if len(names) == 1:
                    m.name = names[0]       # written under a name the protocol does not have: reported once, then followed

    def carries(self, v, m):
        """Is the value written the member's field (or, of an optional one, what is in it)?"""
        f = fld(ARG0, 0, m.index)
        return v == f or v == fld(f, 1, 0) and self.ftypes[m.index].startswith(OPTION + "<")

    def kind_none(self):
        a = self.chk.adt(self.p, "TaskDataKind")
        vs = self.chk.variants(self.p, a)
        return ("variant", vs.index("None"), len(vs))

    def rule(self, m):
        return self.kind_none() if m.rule == "kind" else m.rule

    def decoder(self, on_ok):
        key = type_impl(self.chk, self.p, "Deserialize", "deserialize", self.ty)
        names = {m.name for m in self.members}
        return ObjectDecoder(self.chk, self.p, key, self.name + " decoder", names, {m.name for m in self.members if not m.lenient}, on_ok)


def quiet(chk, fn):
    kept = dict(chk.viol), dict(chk.obl)
    r = fn()
    chk.viol, chk.obl = kept
    return r


def types_of(chk):
    p = chk.P.types
    have = {a.split("::")[-1] for im in p.impls if im["trait"].split("::")[-1] == "Serialize" for a in [p.tys(im["self"])] if a in p.adts}
    for n in list(SPEC) + list(CODES) + list(TAGS):
        if n not in have:
            raise Anchor("no type %s that can be written" % n)
    return have


def check_members(chk):
    """C17: every type that travels has the protocol's members, each carrying its own value, both ways."""
    p = chk.P.types
    types_of(chk)
    n = 0
    for name in SPEC:
        w = quiet(chk, lambda: Wire(chk, name))
        if not w.objs:
            chk.fail(name + ": is not written as an object", "")
            continue
        for m in w.members:
            n += 1
            if m.index is None:
                chk.fail("%s: no field carries %s" % (name, m.wire), "")
                continue
            chk.ob("%s: member %s is called %s" % (name, m.wire, m.wire), m.name == m.wire, "it is called %s" % m.name, key="%s: member %s is called %s" % (name, m.wire, m.name))
            jt = json_type(w.ftypes[m.index])
            chk.ob("%s: member %s is %s" % (name, m.wire, m.type), jt is None or jt == m.type, "it is %s" % jt, key="%s: member %s is %s, not %s" % (name, m.wire, jt, m.type))
        ms = {m.name: m for m in w.members}
        for x, vs in w.written.items():
            if x not in ms:
                chk.fail("%s: writes a member %s" % (name, x if isinstance(x, str) else pv(w.g.an, x)), "the protocol has none of this name")
                continue
            m = ms[x]
            if m.index is not None:
                for v in vs:
                    chk.ob("%s encoder: %s carries its value" % (name, m.wire), w.carries(v, m), "carries %s" % pv(w.g.an, v))
        for o in w.objs:
            names = [x for x, _ in o.form[1]]
            for x in set(names):
                chk.ob("%s encoder: writes each member once" % name, names.count(x) == 1, "%s is written twice" % x)
        for m in w.members:
            chk.ob("%s encoder: %s can be written" % (name, m.wire), m.name in w.written, "no path writes it")

        def on_ok(d, pay, fail, w=w):
            if pay[0] != "a" or pay[1] != w.ty:
                fail("cannot tell what is decoded", pv(D.an, pay))
                return
            for m in w.members:
                if m.name in d.members and m.index is not None:
                    if not decoded_from(D, d, pay[3][m.index], d.members[m.name]):
                        fail("%s gets a value that is not the member's" % m.wire, pv(D.an, pay[3][m.index]))
        D = w.decoder(on_ok)
        D.run()
        chk.ob("%s decoder: accepts a complete object" % name, D.nok > 0, "no path")
        if any(not m.lenient for m in w.members):
            chk.ob("%s decoder: insists on required members" % name, D.nmiss > 0, "no path")
        chk.ob("%s decoder: tolerates unknown members" % name, D.nunknown > 0, "no path")
        chk.ob("%s decoder: refuses repeated members" % name, D.ndup > 0, "no path")
    chk.floor("members", n, 120)


def empty_value(p, v, ty):
    """Is v the empty value of its type, built without input: True / False / None (cannot tell)."""
    if v[0] == "a" and v[1] in ("vec", "array"):
        return not v[3]
    if v[0] == "a" and isinstance(v[1], str):
        a = p.adts.get(v[1])
        if v[1] == OPTION:
            return v[2] == 0
        if v[1].endswith("Value"):
            return null_value(p, v)
        if a and a["kind"] == "enum":
            return a["variants"][v[2]]["name"] == "None" if any(x["name"] == "None" for x in a["variants"]) else None
    if v[0] == "s":
        return v[1] == ""
    return None


def check_optional(chk):
    """C18: unset optional members are left out, set ones written; absent ones are read as unset."""
    p = chk.P.types
    types_of(chk)
    n = 0
    for name in SPEC:
        w = quiet(chk, lambda: Wire(chk, name))
        opt = [m for m in w.members if m.lenient]
        for o in w.objs:
            names = [x for x, _ in o.form[1]]
            for m in w.members:
                if m.index is None:
                    continue
                r = w.rule(m)
                e = empty(p, o.kn, fld(ARG0, 0, m.index), r)
                n += 1
                if m.name in names:
                    if r is not None:
                        chk.ob("%s: %s is left out when unset" % (name, m.wire), e is False, "it is written although it may be unset")
                else:
                    chk.ob("%s: %s is written%s" % (name, m.wire, " when set" if r else ""), r is not None and e is True, "it is left out although it may be set")
        if not opt:
            continue
        seen = {}

        def on_ok(d, pay, fail, w=w):
            if pay[0] != "a" or pay[1] != w.ty:
                return
            for m in w.members:
                if m.name not in d.members and m.index is not None:
                    v = pay[3][m.index]
                    seen[m.wire] = True
                    if contains(v, lambda x: x[0] in ("res", "out", "old")) and not free(v, d):
                        fail("absent %s is filled from the input" % m.wire, pv(D.an, v))
                    elif m.rule and empty_value(p, v, w.ftypes[m.index]) is False:
                        fail("absent %s is not read as unset" % m.wire, pv(D.an, v))
        D = w.decoder(on_ok)
        run_optional(chk, D, name)
        for m in opt:
            chk.ob("%s: %s may be absent" % (name, m.wire), seen.get(m.wire), "no path accepts an object without it")
    chk.floor("omission decisions", n, 400)


def free(v, d):
    rs = set(d.members.values())
    return not contains(v, lambda x: x in rs)


def run_optional(chk, D, name):
    """Of what the decoder does wrong, this property owns what concerns absent members."""
    before = dict(chk.viol), dict(chk.obl)
    D.run()
    mine = {k: v for k, v in chk.viol.items() if k not in before[0] and re.search(r": (absent |rejects an object with all required)", k)}
    chk.viol, chk.obl = before
    for k, (msg, tr) in mine.items():
        chk.fail(k, msg, tr)


# ---- C19 codes and tags ------------------------------------------------------------------------------
def vindex(chk, p, ty, names):
    vs = chk.variants(p, ty)
    for n in names.split("|"):
        if n in vs:
            return vs.index(n)
    raise Anchor("%s has no variant %s" % (ty, names))


def check_codes(chk):
    p = chk.P.types
    types_of(chk)
    n = 0
    for name, table in list(CODES.items()) + list(TAGS.items()):
        ty = chk.adt(p, name)
        vs = chk.variants(p, ty)
        num = name in CODES
        code = {vindex(chk, p, ty, v): c for v, c in table.items()}
        custom = vs.index("Custom") if "Custom" in vs else None
        none = vs.index("None") if "None" in vs else None
        chk.ob("%s: values are distinct" % name, len(set(code.values())) == len(code))
        g, outs = encodings(chk, p, type_impl(chk, p, "Serialize", "serialize", ty), name + " encoder")
        got = {}
        for o in outs:
            for i in possible_of(p, o.kn, ARG0, ty):
                got.setdefault(i, set()).add(as_code(p, written_scalar(p, o, i, g), ty, i))
        for i, v in enumerate(vs):
            n += 1
            if i == custom:
                want = {fld(ARG0, i, 0)}
            elif i == none:
                want = {None}
            elif i in code:
                want = {I(code[i]) if num else S(code[i])}
            else:
                continue
            show = lambda t: ", ".join(sorted("nothing" if x is None else pv(g.an, x) for x in t))
            chk.ob("%s::%s is written as %s" % (name, v, show(want)), got.get(i) == want, "written as %s" % show(got.get(i, ())), key="%s::%s is not written as %s" % (name, v, show(want)))
        decode_scalar(chk, p, name, ty, vs, code, num, custom, none)
    chk.floor("variants with a code", n, 28)
    n = 0
    for name in SPEC:
        coded = [m for m in members(name) if m.type.strip("[]") in CODES or m.type.strip("[]") in TAGS]
        if coded:
            n += len(coded)
            coded_members(chk, name, {m.wire for m in coded})
    chk.floor("members that carry a code or a tag", n, 9)


def coded_members(chk, name, coded):
    """A member that carries a code is read and written as its type is, not in a way of its own."""
    w = quiet(chk, lambda: Wire(chk, name))
    ms = [m for m in w.members if m.wire in coded and m.index is not None]
    for m in ms:
        for v in w.written.get(m.name, ()):
            chk.ob("%s: %s is written as its code" % (name, m.wire), w.carries(v, m), "written as %s" % pv(w.g.an, v))

    def on_ok(d, pay, fail):
        if pay[0] != "a" or pay[1] != w.ty:
            return              # C17 tells
        for m in ms:
            if m.name in d.members:
                ok = decoded_from(D, d, pay[3][m.index], d.members[m.name])
                chk.ob("%s: %s is read as its code" % (name, m.wire), ok, "gets %s" % pv(D.an, pay[3][m.index]))
    D = w.decoder(on_ok)
    quiet_fails(chk, D)


def quiet_fails(chk, D):
    """Runs a decoder for what it records, not for what it reports."""
    viol, obl = dict(chk.viol), dict(chk.obl)
    D.run()
    mine = lambda new, old: {k: v for k, v in new.items() if k in old or k.endswith(" is read as its code")}
    chk.viol, chk.obl = mine(chk.viol, viol), mine(chk.obl, obl)


def possible_of(p, kn, v, ty):
    """The variants v may have, for an enum whose discriminants are not its variant numbers."""
    ds = [x["discr"] for x in p.adts[ty]["variants"]]
    top = max(ds) + 1
    return {ds.index(d) for d in possible(kn, v, top) if d in ds}


def as_code(p, x, ty, i):
    """A written term, for the variant i of the value: its discriminant is known, and so is an integer cast of it."""
    if x == ("discr", ARG0):
        return I(p.adts[ty]["variants"][i]["discr"])
    m = re.match(r"cast:[iu](?:\d+|size)->([iu])(\d+|size)$", x[1]) if x is not None and x[0] == "app" else None
    if m:
        y = as_code(p, x[2][0], ty, i)
        w = 64 if m.group(2) == "size" else int(m.group(2))
        lo, hi = (0, (1 << w) - 1) if m.group(1) == "u" else (-(1 << w - 1), (1 << w - 1) - 1)
        if y[0] == "i" and lo <= y[1] <= hi:
            return y
    return x


def written_scalar(p, o, i, g):
    k, x = o.form
    if k == "none":
        return None
    if k == "str":
        return x
    if k == "as":
        x = x[1]
    elif k == "scalar":
        x = x[1] if len(x) > 1 else ("app", x[0], ())
    return x




VISIT_NUM = [k for k, ms in models.VISIT.items() if ms == ["visit_u64"]]
VISITED = ("app", "visited", ())        # the value is handed to a visitor


def decode_scalar(chk, p, name, ty, vs, code, num, custom, none):
    g = chk.explore(p, type_impl(chk, p, "Deserialize", "deserialize", ty), opaque=opaque_de, maxstates=2000)
    got = {}
    known = {(I(c) if num else S(c)): i for i, c in code.items()}

    def step(q, e, fail):
        kn, src = q
        if e[0] == "assume":
            return (learn(kn, e), src)
        if e[0] == "call" and DET.search(e[2]) and e[3] and e[3][0] == ARG0:
            if src is not None:
                fail("reads more than one value", describe(g, e) or "")
                return None
            return (kn, e[4])
        if e[0] == "deser" and e[2] == ARG0:
            if src is not None:
                fail("reads more than one value", describe(g, e) or "")
                return None
            return (kn, VISITED if e[1] in (("deserialize_str", "deserialize_string"), VISIT_NUM)[num] else src)
        if e[0] == "panic":
            return None
        if e[0] != "ret":
            return q
        for v, pay in results(kn, e[1]):
            if src is None:
                if v != ERR:
                    fail("cannot tell what is read", pv(g.an, e[1]))
                continue
            bad = src != VISITED and possible(kn, src, 2) == {1}
            x = ("app", "numof" if num else "strof", (ARG0,)) if src == VISITED else ok(src)
            here = values_of(kn, x, known)
            if v == ERR:
                if bad:
                    continue
                for c in here:
                    if c is not None:
                        fail("refuses %s" % pv(g.an, c), pv(g.an, e[1]))
                    elif custom is not None:
                        fail("refuses an unlisted value", "custom values are part of the protocol")
            elif v == OK:
                if bad:
                    if pay[0] != "a" or pay[2] != none:
                        fail("accepts something it cannot read", pv(g.an, pay))
                    continue
                if pay[0] != "a" or pay[1] != ty:
                    fail("cannot tell what is decoded", pv(g.an, pay))
                    continue
                for c in here:
                    got.setdefault(c, set()).add(pay[2])
                    if c is None and pay[2] != custom:
                        fail("an unlisted value is read as %s" % vs[pay[2]], "")
                    elif c is not None and pay[2] != known[c]:
                        fail("%s is read as %s" % (pv(g.an, c), vs[pay[2]]), "")
                if pay[2] == custom and pay[3][0] != x:
                    fail("Custom gets a text that is not the value", pv(g.an, pay[3][0]))
            else:
                fail("cannot tell the outcome", pv(g.an, e[1]))
        return None
    chk.simulate(g, (frozenset(), None), step, name + " decoder")
    for c, i in known.items():
        chk.ob("%s: %s is read as %s" % (name, pv(g.an, c), vs[i]), got.get(c) == {i}, "read as %s" % ", ".join(vs[j] for j in got.get(c, ())))
    if custom is not None:
        chk.ob("%s: other values are read as Custom" % name, got.get(None) == {custom}, "")


def values_of(kn, x, known):
    """The listed values x may have on this path, plus None for the unlisted ones."""
    out = set(known) | {None}
    for f in kn:
        if f[0] == x:
            if f[1] == "=":
                return {f[2]} if f[2] in known else {None}
            out -= set(f[2])
        elif f[0][0] == "eq" and x in f[0][1:]:
            c = [y for y in f[0][1:] if y != x]
            if len(c) == 1 and c[0] in known and f[1] == "=":
                out = {c[0]} if f[2] == I(1) else out - {c[0]}
    return out


# ---- C26 wide integers ----------------------------------------------------------------------------------
def check_wide(chk):
    p = chk.P.types
    for name, field in WIDE:
        w = quiet(chk, lambda: Wire(chk, name))
        m = [m for m in w.members if m.field == field]
        if not m or m[0].index is None:
            raise Anchor("%s: no field for %s" % (name, field))
        m = m[0]
        t = re.sub(r"^(std|core)::option::Option<(.*)>$", r"\2", w.ftypes[m.index])
        chk.ob("%s: %s is a 64-bit integer" % (name, m.wire), bool(re.match(r"[ui](64|128|size)$", t)), "it is %s: a timestamp in milliseconds does not fit" % t)
        for v in w.written.get(m.name, ()):
            chk.ob("%s: %s is written unchanged" % (name, m.wire), w.carries(v, m), pv(w.g.an, v))

        def on_ok(d, pay, fail, w=w, m=m):
            if m.name in d.members and pay[0] == "a" and pay[1] == w.ty and not decoded_from(D, d, pay[3][m.index], d.members[m.name]):
                fail("%s is not read unchanged" % m.wire, pv(D.an, pay[3][m.index]))
        D = w.decoder(on_ok)
        kept = dict(chk.viol), dict(chk.obl)
        D.run()
        mine = {k: v for k, v in chk.viol.items() if k not in kept[0] and "is not read unchanged" in k}
        chk.viol, chk.obl = kept
        for k, (msg, tr) in mine.items():
            chk.fail(k, msg, tr)
        chk.ob("%s: %s is read" % (name, m.wire), m.name in D.types, "no path reads it")
    s = chk.P.server
    N = Names(chk)
    t = s.tys(s.adts[N.rerr]["variants"][0]["fields"][N.ef["code"]]["ty"])
    chk.ob("ResponseError: code is a signed 32-bit integer or wider", bool(re.match(r"i(32|64|128|size)$", t)), "it is " + t)
    # codes given to the error constructor arrive as they are
    root = chk.method_root(s, "Response", "err")
    g = chk.explore(s, root)
    n = 0
    for e in g.events("ret"):
        r = N.bare_response(e[1])
        er = r["error"] if r else None
        if er is None or not is_some(er) or er[3][0][0] != "a":
            chk.fail("Response::err: cannot tell the code", pv(g.an, e[1]))
            continue
        code = er[3][0][3][N.ef["code"]]
        n += 1
        chk.ob("Response::err: the code is carried unchanged", code == ("arg", 1), "it is " + pv(g.an, code),
               key=None if code == ("arg", 1) else "Response::err: the code is not carried unchanged")
    chk.floor("error responses built", n, 1)
