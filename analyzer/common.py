"""Helpers shared by the rule modules."""
import re

from absint import *
from core import *

SEND = re.compile(r"^crossbeam_channel::Sender::<T>::(send|try_send|send_timeout|send_deadline)$")
RECV = re.compile(r"^crossbeam_channel::Receiver::<T>::(recv|try_recv|recv_timeout|recv_deadline)$")
FROMJSON = re.compile(r"^serde_json::(from_str|from_slice|from_reader|from_value)(::<.*>)?$")


def call_match(e, rx):
    if e[0] != "call":
        return None
    m = rx.search(e[1]) or rx.search(e[2])
    return m


# ---- what is known about a symbol's variant --------------------------------------------------
def learn(kn, e):
    """Add an assume event to the (frozen) set of known facts."""
    if e[0] != "assume" or absint.is_weak(e[1]):
        return kn
    if e[2] == "=":
        return frozenset(f for f in kn if f[0] != e[1]) | {(e[1], "=", e[3])}
    cs = frozenset(e[3])
    for f in kn:
        if f[0] == e[1]:
            if f[1] == "=":
                return kn
            cs |= f[2]
    return frozenset(f for f in kn if f[0] != e[1]) | {(e[1], "!", cs)}


def holds(kn, term, c):
    """True / False / None: does the knowledge say term == c?"""
    for f in kn:
        if f[0] == term:
            if f[1] == "=":
                return f[2] == c
            if c in f[2]:
                return False
    return None


def possible(kn, v, n):
    """Variants (discriminants 0..n-1) the value v may have."""
    if v[0] == "a":
        return {v[2]}
    s = set(range(n))
    for f in kn:
        if f[0] == ("discr", v):
            if f[1] == "=":
                return {f[2][1]}
            s -= {c[1] for c in f[2]}
    return s


def only_about(kn, pred):
    return frozenset(f for f in kn if contains(f[0], pred))


# ---- results ---------------------------------------------------------------------------------
def results(kn, v):
    """The (variant, payload) outcomes a Result value may have, given what is known.
    variant None: cannot tell."""
    if v[0] == "a" and v[1] == RESULT:
        return [(v[2], v[3][0] if v[3] else UNIT)]
    if v[0] == "alt":
        out = []
        for x in v[1]:
            out += results(kn, x)
        return out
    if is_sym(v):
        return [(i, fld(v, i, 0)) for i in sorted(possible(kn, v, 2))]
    return [(None, v)]


def globalize(v, an):
    """Make a value of one exploration usable as an input of another one: call results become names."""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] in ("res", "out") and len(v) > 1 and isinstance(v[1], int):
        return ("g", "%s:%s:%s" % (v[0], an.key_of_root, v[1]) + (":%d" % v[2] if len(v) > 2 else ""))
    if v[0] in ("i", "s", "b", "f", "g", "arg"):
        return v
    return tuple(frozenset(globalize(y, an) for y in x) if isinstance(x, frozenset) else globalize(x, an) if isinstance(x, tuple) else x for x in v)


def subterms(v, out=None):
    if out is None:
        out = set()
    collect_terms(v, out)
    return out


def conn_fields(chk):
    p = chk.P.server
    a = chk.adt(p, "Connection")
    return a, chk.field_index(p, a, "sender"), chk.field_index(p, a, "receiver")


class Names:
    """Variant indices of the message types, by name."""

    def __init__(self, chk):
        p = chk.P.server
        self.msg = chk.adt(p, "message::Message") if "message::Message" in p.adts else chk.adt(p, "Message")
        self.req = chk.adt(p, "Request")
        self.notif = chk.adt(p, "Notification")
        self.resp = chk.adt(p, "Response")
        self.rerr = chk.adt(p, "ResponseError")
        self.mv = chk.variants(p, self.msg)
        self.rv = chk.variants(p, self.req)
        self.nv = chk.variants(p, self.notif)
        for need, have in ((("Request", "Response", "Notification"), self.mv), (("InitializeBuild", "Shutdown"), self.rv), (("Exit", "Initialized"), self.nv)):
            for n in need:
                if n not in have:
                    raise Anchor("no variant %s" % n)
        self.REQ, self.RESP, self.NOTIF = (self.mv.index(x) for x in ("Request", "Response", "Notification"))
        self.INIT, self.SHUTDOWN = self.rv.index("InitializeBuild"), self.rv.index("Shutdown")
        self.EXIT, self.INITIALIZED = self.nv.index("Exit"), self.nv.index("Initialized")
        f = chk.fields(p, self.resp)
        self.rf = {n: f.index(n) for n in ("id", "result", "error")}
        f = chk.fields(p, self.rerr)
        self.ef = {n: f.index(n) for n in ("code", "message", "data")}

    def is_exit(self, kn, m):
        """Is message m the exit notification: True / False / None."""
        k = possible(kn, m, len(self.mv))
        if self.NOTIF not in k:
            return False
        n = possible(kn, fld(m, self.NOTIF, 0), len(self.nv)) if m[0] != "a" else possible(kn, m[3][0], len(self.nv))
        if self.EXIT not in n:
            return False
        return True if k == {self.NOTIF} and n == {self.EXIT} else None

    def response(self, v):
        """Message::Response(Response{..}) -> dict of its fields, or None."""
        if v[0] == "a" and v[1] == self.msg and v[2] == self.RESP and v[3] and v[3][0][0] == "a" and v[3][0][1] == self.resp:
            x = v[3][0][3]
            return {n: x[i] for n, i in self.rf.items()}
        return None

    def bare_response(self, v):
        if v[0] == "a" and v[1] == self.resp:
            return {n: v[3][i] for n, i in self.rf.items()}
        return None


def is_none(v):
    return v[0] == "a" and v[1] == OPTION and v[2] == 0


def is_some(v):
    return v[0] == "a" and v[1] == OPTION and v[2] == 1


def json_ok_of(v, unit_ok=False):
    """If v is the JSON value of x (to_value succeeded), return x."""
    if v[0] == "fld" and v[2] == 0 and v[3] == 0 and v[1][0] == "app" and v[1][1] == "serde_json::to_value":
        return v[1][2][0]
    return None
