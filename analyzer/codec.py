"""Reading Serialize and Deserialize implementations as what they write and accept."""
from common import *
import models

ARG0, ARG1 = ("arg", 0), ("arg", 1)
SER = re.compile(r"(serde::Serializer|serde::ser::Serializer)::(serialize_\w+|collect_\w+)$")
SERT = re.compile(r"Serialize::serialize$")
DET = re.compile(r"Deserialize::deserialize$")
OBJ = re.compile(r"serde::ser::Serialize(Struct|Map|StructVariant)::(serialize_field|serialize_entry|serialize_key|serialize_value|skip_field|end)$")
NEXT = re.compile(r"serde::de::MapAccess::(next_value|next_value_seed)$")


def opaque_ser(c, an):
    """Keep nested values opaque; follow an implementation that hands its own serializer on."""
    return bool(SERT.search(c.tpath)) and not (len(c.args) > 1 and c.args[1] == ARG1 and own_impl(c, an))


def opaque_de(c, an):
    return bool(DET.search(c.tpath)) and not (c.args and c.args[0] == ARG0 and own_impl(c, an))


def own_impl(c, an):
    """Is the callee's body an implementation written (or derived) in this crate?"""
    k = c.cal.get("key")
    f = an.p.fns.get(k) if k else None
    return bool(f and f.get("local"))


FMT = re.compile(r"(^|[ :])fmt::(Formatter(::<.*>)?|Write)(>)?::(write_str|write_fmt|write_char|pad|pad_integral|debug_\w+|entry|field|finish)")
DISPLAY = re.compile(r"std::fmt::(Display|Debug)(>| for .*>)?::fmt$")


def shown(v):
    """The text of a value with the (identity) display of texts taken away."""
    while v[0] == "app" and v[1].split("::")[-1] in ("display", "to_string", "from", "into", "as_str", "deref", "to_owned", "clone", "borrow") and len(v[2]) == 1:
        v = v[2][0]
    return v


def parts(v):
    return [shown(x) for x in (v[2] if v[0] == "app" and v[1] == "cat" else (v,))]


def printed(chk, p, key, what):
    """Every way a fmt function succeeds: [(kn, parts written)]."""
    g = chk.explore(p, key, maxstates=900)
    out = []

    def step(q, e, fail):
        kn, acc, last = q
        if e[0] == "assume":
            return (learn(kn, e), acc, last)
        if e[0] == "call" and e[3]:
            m = DISPLAY.search(e[1])
            if m:
                x = e[3][0]
                if m.group(1) == "Debug":
                    x = models.mk("fmt_debug", x)
                return (kn, acc + (shown(x),), last + (e[4],))
            if FMT.search(e[1]):
                n = FMT.search(e[1]).group(5)
                if n not in ("write_str", "write_fmt", "write_char", "pad"):
                    return (kn, acc + (absint.TOP,), last + (e[4],))
                return (kn, acc + tuple(parts(e[3][1])), last + (e[4],))
        if e[0] == "panic":
            fail("panics", describe(g, e) or "")
            return None
        if e[0] == "ret":
            v = e[1]
            failed = [r for r in last if possible(kn, r, 2) == {1}]
            if failed:
                if not (v[0] == "a" and v[1] == RESULT and v[2] == 1 or v in failed):
                    fail("a failed write is not reported", pv(g.an, v))
                return None
            if v[0] == "a" and v[1] == RESULT and v[2] == 1:
                fail("fails though every write succeeded", pv(g.an, v))
                return None
            for r in last:
                if r != v and possible(kn, r, 2) != {0}:
                    fail("a failed write is not reported", pv(g.an, v))
            t = models.cat(*acc)
            out.append((kn, tuple(parts(t))))
            return None
        return q
    chk.simulate(g, (frozenset(), (), ()), step, what)
    if not out:
        chk.fail(what + ": never prints", "no path succeeds")
    return g, out


class Outcome:
    def __init__(self, kn, form):
        self.kn, self.form = kn, form


def encodings(chk, p, key, name, args=None, maxstates=12000):
    """Everything a Serialize implementation may write: a list of Outcome with form
    ("object", ((name, value), ...)) / ("str", v) / ("none",) / ("scalar", method, v) / ("as", type path, v).
    Misuse of the serializer is reported on the way."""
    g = chk.explore(p, key, args, opaque=opaque_ser, maxstates=maxstates, budget=2000000)
    outs = []
    S_ = args[1] if args else ARG1

    def plain(v):
        return write_through(chk, p, v)

    def spelled(kn, form):
        """A value written as it displays itself: what its own Display prints."""
        if form != ("str", ("app", "display", (ARG0,))):
            return [Outcome(kn, form)]
        k = models.impl_fn(p, "Display", "fmt", p.tys(p.fns[key]["self"])) if p.fns[key].get("self") is not None else None
        if k is None:
            return [Outcome(kn, form)]
        return [Outcome(kn | kn2, ("str", models.cat(*ps))) for kn2, ps in printed(chk, p, k, name + ": Display")[1]]

    # q = (kn, obj, entries, keypending, form, pend, cause)
    def step(q, e, fail):
        kn, obj, ent, kp, form, pend, n = q
        k = e[0]
        if k == "assume":
            if absint.is_weak(e[1]):
                return q
            if pend is not None and e[1] == ("discr", pend):
                if e[2] == "=" and e[3] == I(0):
                    return (kn, obj, ent, kp, form, None, n)
                return (kn, obj, ent, kp, ("failed",), None, n)
            if form is not None and len(form) > 2 and e[1] == ("discr", form[2]):
                if e[2] == "=" and e[3] == I(0):
                    return q
                return (kn, obj, ent, kp, ("failed",), None, n)
            return (learn(kn, e), obj, ent, kp, form, pend, n)
        if k == "call":
            m = SER.search(e[2]) or SER.search(e[1])
            o = OBJ.search(e[2]) or OBJ.search(e[1])
            if o or m or SERT.search(e[2]):
                if form and form[0] == "failed":
                    fail("goes on after a write failed", describe(g, e) or "")
                    return None
                if pend is not None:
                    fail("the outcome of a write is not checked", describe(g, e) or "")
            if o:
                what = o.group(2)
                if obj is None or e[3][0] != ok(obj):
                    fail("writes to an object it did not open", describe(g, e) or "")
                    return None
                if form is not None:
                    fail("writes after the end of the object", describe(g, e) or "")
                    return None
                if what == "end":
                    if kp is not None:
                        fail("a member has a name but no value", "")
                    if ent and n == 0:
                        fail("announces an empty object but writes members", "the JSON writer closes an object announced with length 0 at once: the members end up outside it")
                    return (kn, obj, ent, kp, ("object", ent, e[4]), None, n)
                if what == "skip_field":
                    return (kn, obj, ent, kp, form, e[4], n)
                if what == "serialize_key":
                    return (kn, obj, ent, e[3][1], form, e[4], n)
                if what == "serialize_value":
                    return (kn, obj, ent + ((pv_name(kp), plain(e[3][1])),), None, form, e[4], n)
                return (kn, obj, ent + ((pv_name(e[3][1]), plain(e[3][2])),), kp, form, e[4], n)
            if m:
                if obj is not None or form is not None:
                    fail("writes more than one value", describe(g, e) or "")
                    return None
                what = m.group(2)
                if e[3][0] != S_:
                    return q
                if what in ("serialize_struct", "serialize_map"):
                    ln = e[3][2] if what == "serialize_struct" else e[3][1]
                    if is_some(ln):
                        ln = ln[3][0]
                    return (kn, e[4], (), None, None, e[4], ln[1] if ln[0] == "i" else None)
                if what in ("serialize_none", "serialize_unit"):
                    return (kn, obj, ent, kp, ("none", None, e[4]), None, n)
                if what == "serialize_str":
                    return (kn, obj, ent, kp, ("str", e[3][1], e[4]), None, n)
                if what == "collect_str":
                    return (kn, obj, ent, kp, ("str", ("app", "display", (e[3][1],)), e[4]), None, n)
                return (kn, obj, ent, kp, ("scalar", (what[len("serialize_"):],) + tuple(e[3][1:]), e[4]), None, n)
            if SERT.search(e[2]) and len(e[3]) > 1 and e[3][1] == S_:
                if obj is not None or form is not None:
                    fail("writes more than one value", describe(g, e) or "")
                    return None
                return (kn, obj, ent, kp, ("as", (ser_type(e), e[3][0]), e[4]), None, n)
            return q
        if k == "panic":
            return None
        if k == "ret":
            for v, pay in results(frozenset(), e[1]):
                if v == ERR:
                    if form is not None and (form[0] == "failed" or e[1] == form[2] if len(form) > 2 else form[0] == "failed"):
                        continue
                    fail("fails without a cause", pv(g.an, e[1]))
                elif v == OK:
                    if form is None or form[0] == "failed":
                        fail("succeeds without writing a value", pv(g.an, e[1]))
                    elif e[1] != form[2] and pay != ok(form[2]):
                        fail("does not return the outcome of the last write", pv(g.an, e[1]))
                    else:
                        outs.extend(spelled(kn, form[:2]))
                else:
                    fail("cannot tell the outcome", pv(g.an, e[1]))
            return None
        return q
    chk.simulate(g, (frozenset(), None, (), None, None, None, None), step, name)
    if not outs:
        chk.fail(name + ": never writes a value", "no path succeeds")
    return g, outs


def write_through(chk, p, v):
    """What is written for a value wrapped to be written by a function (serde's serialize_with), when that
    function always writes one value as it is."""
    if not (v[0] == "a" and isinstance(v[1], str) and v[1].endswith("__SerializeWith")):
        return v
    k = models.impl_fn(p, "Serialize", "serialize", v[1])
    if k is None:
        return v
    an = Analyzer(p, chk.P.M, opaque=lambda c, an: bool(SERT.search(c.tpath)), maxstates=200)
    try:
        g = an.explore(k, [v, ARG1])
    except Budget:
        return v
    writes, good = set(), True
    for e in g.events():
        if e[0] == "call" and SERT.search(e[2]) and len(e[3]) > 1 and e[3][1] == ARG1:
            writes.add((e[3][0], e[4]))
        elif e[0] == "ret":
            good &= any(e[1] == r for _, r in writes)
        elif e[0] not in ("assume", "age", "drop"):
            good = False
    return next(iter(writes))[0] if good and len(writes) == 1 else v


def pv_name(v):
    return v[1] if v is not None and v[0] == "s" else v


def ser_type(e):
    m = re.search(r"impl serde::Serialize for ([^>]+(<.*>)?)>::serialize", e[1])
    if m:
        return m.group(1)
    return e[6][0] if e[6] else e[1]


def de_type(e):
    m = re.search(r"impl serde::Deserialize<'de> for (.+)>::deserialize$", e[1]) or re.search(r"^<(.+) as serde::Deserialize<'\w+>>::deserialize$", e[1])
    return m.group(1) if m else (e[6][0] if e[6] else e[1])


class Decoded:
    """What the decoder knows at a successful end."""

    def __init__(self, members, subs, kn):
        self.members = members      # wire name -> result symbol of next_value
        self.subs = subs            # (result symbol, type, argument)
        self.kn = kn


class ObjectDecoder:
    """Property automaton of an object decoder. names: the members it must know; required: those it must insist on.
    on_ok(decoded, value, fail) judges a successful end."""

    def __init__(self, chk, p, key, name, names, required, on_ok, args=None, maxstates=200000):
        self.chk, self.p, self.name = chk, p, name
        self.names, self.required, self.on_ok = frozenset(names), frozenset(required), on_ok
        self.nok = self.nmiss = self.nunknown = self.ndup = 0
        self.types = {}
        self.leaks = []
        absint.OLD_SLOTS = 6
        try:
            self.g = chk.explore(p, key, args, opaque=opaque_de, maxstates=maxstates, budget=2000000)
        finally:
            absint.OLD_SLOTS = 1
        self.an = self.g.an
        self.saw_object = any(e[0] == "key" for e in self.g.events())

    # q = (phase, cur, kn, members, subs)
    # phase: start | loop | end | inerr
    # cur: None or (name symbol, result of reading its value or None, that result is known to be Ok)
    q0 = ("start", None, frozenset(), (), ())

    def run(self):
        absint.OLD_SLOTS = 6
        try:
            self.chk.simulate(self.g, self.q0, self.step, self.name)
        finally:
            absint.OLD_SLOTS = 1
        return self

    def classify(self, kn, cur):
        """The wire name the current member has on this path; "" if it is none of the known ones; None if undecided."""
        out = set()
        for f in kn:
            if f[0] == cur and f[1] == "=" and f[2][0] == "s":
                return f[2][1]
            if f[0] == cur and f[1] == "!":
                out |= {c[1] for c in f[2] if c[0] == "s"}
        return "" if self.names <= out else None

    def settle(self, q, fail):
        """The decoder is done with the current member."""
        phase, cur, kn, mem, subs = q
        if cur is None:
            return q
        key, val, good = cur
        nm = self.classify(kn, key)
        if val is None:
            fail("leaves the value of %s unread" % ("an unknown member" if nm in ("", None) else "member " + nm), "the next read takes the value for a name and the object is rejected")
            return None
        if not good:
            fail("the outcome of reading a member is not checked", "")
            return None
        if nm is None:
            ex = {c[1] for f in kn if f[0] == key and f[1] == "!" for c in f[2] if c[0] == "s"}
            for m in sorted(self.names - ex):
                fail("member %s is treated as an unknown one" % m, "the decoder does not tell it from members it ignores")
            return None
        if nm and nm in dict(mem):
            fail("accepts member %s twice" % nm, "a repeated member must be an error")
            return None
        if nm == "":
            self.nunknown += 1
        elif nm in self.names:
            mem = tuple(sorted(mem + ((nm, val),)))
        return (phase, None, frozenset(f for f in kn if not contains(f[0], lambda y: y == key or y == val)), mem, subs)

    def step(self, q, e, fail):
        phase, cur, kn, mem, subs = q
        k = e[0]
        if k == "assume":
            if absint.is_weak(e[1]):
                return q
            if cur is not None and cur[1] is not None and e[1] == ("discr", cur[1]):
                if e[2] == "=" and e[3] == I(0):
                    return (phase, (cur[0], cur[1], True), kn, mem, subs)
                return ("inerr", cur, kn, mem, subs)
            return (phase, cur, learn(kn, e), mem, subs)
        if k == "key":
            if phase == "inerr":
                fail("goes on after an input error", "an error while reading a member is ignored")
                return None
            if phase == "end":
                fail("goes on after the end of the object", "")
                return None
            q = self.settle(q, fail)
            if q is None:
                return None
            phase, cur, kn, mem, subs = q
            if e[1] == "err":
                return ("inerr", None, kn, mem, subs)
            if e[1] == "end":
                return ("end", None, kn, mem, subs)
            return ("loop", (e[2], None, False), kn, mem, subs)
        if k == "call":
            if NEXT.search(e[2]) or NEXT.search(e[1]):
                if cur is None or cur[1] is not None:
                    fail("reads a value that has no name", "")
                    return None
                nm = self.classify(kn, cur[0])
                if nm:
                    self.types.setdefault(nm, set()).add(value_type(e))
                return (phase, (cur[0], e[4], False), kn, mem, subs)
            if DET.search(e[2]) or FROMJSON.search(e[1]):
                return (phase, cur, kn, mem, subs + ((e[4], de_type(e), e[3][0]),))
            return q
        if k == "leak":
            self.leaks.append((e, q))
            return q
        if k == "panic":
            return None
        if k == "ret":
            for v, pay in results(kn, e[1]):
                if v is None:
                    fail("cannot tell the outcome", pv(self.an, e[1]))
                elif v == ERR:
                    self.judge_err(q, e, fail)
                else:
                    self.judge_ok(q, pay, e, fail)
            return None
        return q

    def judge_err(self, q, e, fail):
        phase, cur, kn, mem, subs = q
        if phase in ("inerr", "start"):
            return
        if phase == "loop":
            nm = self.classify(kn, cur[0]) if cur else None
            if nm and nm in dict(mem):
                self.ndup += 1
                return
            if not any(possible(kn, r, 2) == {1} for r, _, _ in subs):
                fail("rejects %s" % ("member " + nm if nm else "an unknown member"), "an object is refused while its members are read, without an error in them: " + pv(self.an, e[1]))
            return
        missing = self.required - {n for n, _ in mem}
        if missing:
            self.nmiss += 1
            return
        if any(possible(kn, r, 2) == {1} for r, _, _ in subs) or any(e[1] == r for r, _, _ in subs):
            return
        absent = sorted(self.names - {n for n, _ in mem})
        fail("rejects an object with all required members", "absent: %s; %s" % (", ".join(absent) or "none", pv(self.an, e[1])))

    def judge_ok(self, q, pay, e, fail):
        phase, cur, kn, mem, subs = q
        if phase == "start" and not self.saw_object:
            fail("cannot tell how the object is read", pv(self.an, pay))
            return
        if phase == "start":
            fail("accepts something without reading its members", pv(self.an, pay))
            return
        if phase == "inerr":
            fail("accepts an object after an input error", pv(self.an, pay))
            return
        if phase != "end":
            fail("stops reading before the end of the object", pv(self.an, pay))
            return
        missing = self.required - {n for n, _ in mem}
        if missing:
            fail("accepts an object without %s" % ", ".join(sorted(missing)), pv(self.an, pay))
            return
        if any(possible(kn, r, 2) == {1} for r, _, _ in subs):
            fail("accepts a member whose content is invalid", pv(self.an, pay))
            return
        self.nok += 1
        self.on_ok(Decoded(dict(mem), subs, kn), pay, fail)

def value_type(e):
    """The type next_value is asked for."""
    for x in reversed(e[6]):
        return x
    return "?"


def null_value(p, v):
    if v[0] == "a" and isinstance(v[1], str) and v[1].endswith("Value"):
        a = p.adts.get(v[1])
        return bool(a) and a["variants"][v[2]]["name"] == "Null"
    return False
