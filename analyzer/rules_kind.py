"""C06: the kind of an incoming message."""
from rules_message import *

GET = re.compile(r"serde_json::(Value|Map<.*>|map::Map<.*>|Map)::(get|contains_key|get_mut|get_key_value)$|serde_json::(Value|Map)::(get|contains_key)")
MEMBERS = ("id", "method", "params", "result", "error")
EXPLICIT = ("serde_json::Value", "IgnoredAny", "serde::de::IgnoredAny")


class Record:
    def __init__(self, present, checked):
        self.present, self.checked = present, checked


class KindDecoder(ObjectDecoder):
    """What classes of objects one decoder accepts. The names it knows are those it compares member names with."""

    def __init__(self, chk, p, ty, name):
        key = type_impl(chk, p, "Deserialize", "deserialize", ty)
        super().__init__(chk, p, key, name, set(), set(), self.collect)
        keys = {e[2] for e in self.g.events("key") if e[1] == "some"}
        for e in self.g.events("assume"):
            if e[1] in keys:
                for c in ([e[3]] if e[2] == "=" else e[3]):
                    if c[0] == "s":
                        self.names |= {c[1]}
        self.names = frozenset(self.names)
        self.oks, self.errs = [], []
        self.unfit_ok = False
        self.refuses_unknown = False

    def ok_sub(self, d, m):
        """Is the member's value decoded into something, successfully on this path?"""
        return any(a == ok(m) and possible(d.kn, s, 2) == {0} and not self.plain(t) for s, t, a in d.subs)

    @staticmethod
    def plain(t):
        return t.split("::")[-1] in ("Value", "IgnoredAny")

    def checked(self, d, n):
        ts = self.types.get(n, set())
        return bool(ts) and all(not self.plain(t) for t in ts) or self.ok_sub(d, d.members[n])

    def collect(self, d, pay, fail):
        self.oks.append(Record(frozenset(d.members), frozenset(n for n in d.members if self.checked(d, n))))
        self.judge_params(d, pay)

    def judge_params(self, d, pay):
        pass

    def judge_ok(self, q, pay, e, fail):
        phase, cur, kn, mem, subs = q
        if phase != "end":
            raise Anchor("%s: cannot tell how the object is read" % self.name)
        self.nok += 1
        self.collect(Decoded(dict(mem), subs, kn), pay, fail)

    def judge_err(self, q, e, fail):
        phase, cur, kn, mem, subs = q
        if phase == "loop":
            nm = self.classify(kn, cur[0]) if cur else None
            if nm and nm in dict(mem):
                return
            if any(possible(kn, r, 2) == {1} for r, _, _ in subs) or cur and cur[1] is not None and possible(kn, cur[1], 2) == {1}:
                return
            if nm:
                self.errs.append((frozenset(n for n, _ in mem) | {nm}, True))
            else:
                self.refuses_unknown = True
            return
        if phase != "end":
            return
        if any(possible(kn, r, 2) == {1} for r, _, _ in subs) or any(e[1] == r for r, _, _ in subs):
            return
        self.errs.append((frozenset(n for n, _ in mem), False))

    def outcomes(self, cls):
        """The outcomes {OK, ERR} an object of the class may have. cls: name -> absent | valid | other, "params" -> fit | unfit."""
        def fits(present, checked):
            for n in ("id", "method"):
                if n not in self.names:
                    continue
                if (cls[n] == "absent") != (n not in present):
                    return False
                if cls[n] == "other" and n in checked:
                    return False
            return True
        out = set()
        if any(fits(r.present, r.checked) for r in self.oks) and (cls["params"] == "fit" or self.unfit_ok or "params" not in self.names):
            out.add(OK)
        bad = any(cls[n] == "other" and n in self.names and any(n in r.checked for r in self.oks) for n in ("id", "method")) or cls["params"] == "unfit" and "params" in self.names and not self.unfit_ok
        have = {n for n in ("id", "method") if cls[n] != "absent"}
        if bad or any((have & self.names) >= (ps & {"id", "method"}) if partial else (have & self.names) == (ps & {"id", "method"}) for ps, partial in self.errs if self.genuine(ps, partial)):
            out.add(ERR)
        return out or {ERR}

    def genuine(self, ps, partial):
        """An error that is not about a missing member other than id and method (result, error, params may be anything)."""
        if partial:
            return True
        return any(True for r in self.oks if r.present == ps) or not any(r.present & {"id", "method"} == ps & {"id", "method"} for r in self.oks)


class PayloadDecoder(KindDecoder):
    def __init__(self, chk, p, K):
        self.K = K
        super().__init__(chk, p, K.ty, K.which + " decoder")

    def judge_params(self, d, pay):
        K = self.K
        if pay[0] == "a" and pay[1] == K.ty:
            v = K.name(pay[2])
            if v in K.table and K.table[v][1] and "params" in d.members:
                if not any(possible(d.kn, s, 2) == {0} and a == ok(d.members["params"]) for s, _, a in d.subs):
                    self.unfit_ok = True


def check_kinds(chk):
    p = chk.P.server
    N = Names(chk)
    D = {}
    for k, mk in (("Request", lambda: PayloadDecoder(chk, p, Kind(chk, N, "Request"))),
                  ("Notification", lambda: PayloadDecoder(chk, p, Kind(chk, N, "Notification"))),
                  ("Response", lambda: KindDecoder(chk, p, N.resp, "Response decoder"))):
        D[k] = mk()
        chk.simulate_quiet(D[k])
        chk.ob("%s decoder: unknown members do not matter" % k, not D[k].refuses_unknown, "an object with a member the decoder does not know (jsonrpc, for one) is not read as a %s" % k.lower())
        if not D[k].oks:
            raise Anchor("%s decoder: no path accepts anything" % k)
    g = chk.explore(p, type_impl(chk, p, "Deserialize", "deserialize", N.msg), opaque=opaque_de, maxstates=4000)
    ends = []
    tys = {"Request": N.req, "Notification": N.notif, "Response": N.resp}

    # q = (kn, content result, attempts ((result, kind), ...), conditions ((term, member), ...))
    def step(q, e, fail):
        kn, src, att, cond = q
        if e[0] == "assume":
            return (learn(kn, e), src, att, cond)
        if e[0] == "call":
            t = de_type(e) if DET.search(e[2]) else (e[6] or ("?",))[-1] if FROMJSON.search(e[1]) else None
            if t is not None:
                if e[3] and contains(e[3][0], lambda x: x == ARG0) and src is None:
                    return (kn, e[4], att, cond)
                k = [n for n, ty in tys.items() if t == ty or t.split("::")[-1] == n]
                if k:
                    if src is None or not contains(e[3][0], lambda x: x == ok(src)):
                        fail("tries a kind on something else than the object read", describe(g, e) or "")
                    return (kn, src, att + ((e[4], k[0]),), cond)
                return q
            if GET.search(e[1]) or GET.search(e[2]):
                if e[3][1][0] == "s" and src is not None and contains(e[3][0], lambda x: x == ok(src)):
                    return (kn, src, att, cond + ((e[4], e[3][1][1]),))
            return q
        if e[0] == "panic":
            return None
        if e[0] == "ret":
            if src is not None and possible(kn, src, 2) == {1}:
                for v, pay in results(kn, e[1]):
                    if v != ERR:
                        fail("accepts an object that could not be read", pv(g.an, e[1]))
                return None
            ends.append((kn, src, att, cond, e))
            return None
        return q
    chk.simulate(g, (frozenset(), None, (), ()), step, "Message decoder")
    if not ends:
        raise Anchor("Message decoder: no path returns")
    n = 0
    for i in ("absent", "valid", "other"):
        for m, par in (("absent", "fit"), ("other", "fit"), ("valid", "fit"), ("valid", "unfit")):
            cls = {"id": i, "method": m, "params": par}
            want = {("valid", "valid", "fit"): "Request", ("absent", "valid", "fit"): "Notification"}.get((i, m, par)) or ("Response" if i == "valid" and m == "absent" else "an error")
            outc = {k: d.outcomes(cls) for k, d in D.items()}
            got = set()
            for kn, src, att, cond, e in ends:
                if not consistent(kn, att, cond, cls, outc):
                    continue
                for v, pay in results(kn, e[1]):
                    if v == ERR:
                        got.add("an error")
                    elif v == OK and pay[0] == "a" and pay[1] == N.msg:
                        k = N.mv[pay[2]]
                        r = [s for s, t in att if t == k and pay[3][0] == ok(s)]
                        if not r:
                            chk.fail("Message decoder: %s carries something else than what was decoded" % k, pv(g.an, pay))
                        elif OK in outc[k]:
                            got.add(k)
                    elif v == OK and pay[0] == "fld" or v is None or v == OK:
                        chk.fail("Message decoder: cannot tell what is decoded", pv(g.an, e[1]))
            n += 1
            desc = "an object with %s" % ", ".join(("no " + a if b == "absent" else "an invalid " + a if b == "other" else "a valid " + a) for a, b in (("id", i), ("method", m)))
            if m == "valid":
                desc += " and params that %s" % ("fit" if par == "fit" else "do not fit")
            chk.ob("%s is %s" % (desc, want), got == {want}, "it is decoded as %s" % (" or ".join(sorted(got)) or "nothing"),
                   key="%s is %s, not %s" % (desc, " or ".join(sorted(got)) or "nothing", want))
    chk.floor("classes of objects", n, 12)


def consistent(kn, att, cond, cls, outc):
    for r, k in att:
        ps = possible(kn, r, 2)
        if not ps & outc[k]:
            return False
    for r, name in cond:
        if name not in ("id", "method"):
            continue
        there = cls[name] != "absent"
        ps = possible(kn, r, 2)
        h = holds(kn, r, I(1))
        if h is not None and h != there:
            return False
        if ps == {0} and there or ps == {1} and not there:
            return False
    return True
