"""C01 C02 C10 C11 C12: the transport threads, found from the public constructors by what they do."""
from common import *

SPAWN = re.compile(r"^std::thread::(Builder::)?spawn$|^std::thread::(Scope.*::|Builder::)spawn")
PEEK = re.compile(r"std::io::(?:BufRead|Read|Seek)>?::(fill_buf|consume|bytes|lines|split|skip_until|read_vectored|read_buf_exact|read_array|has_data_left|seek|rewind|seek_relative)(?:::<.*>)?$"
                  r"|std::io::(?:BufReader::<R>|Bytes|Lines|Split|Stdin)\S*::(seek_relative|buffer|peek|into_inner|lines|discard_buffer)$|std::io::(copy)(?:::<.*>)?$|std::io::(read_to_string)(?:::<.*>)?$")
READS = ("read_line", "read_until", "read_to_end", "read_to_string", "read_exact", "read", "read_buf")
WRITER_PHASES = 10


class Thread:
    def __init__(self, closure, handle, key):
        self.closure, self.handle, self.key = closure, handle, key
        self.graph = None
        self.role = None


class Transport:
    """What one public constructor builds."""

    def __init__(self, chk, name):
        self.name = name
        p = chk.P.server
        self.root = chk.method_root(p, "Connection", name)
        self.g = chk.explore(p, self.root)
        an = self.g.an
        self.threads = {}
        for e in self.g.events("call"):
            if not (SPAWN.search(e[1]) or SPAWN.search(e[2])):
                continue
            cl = None
            for a in e[3]:
                if a[0] == "a" and isinstance(a[1], tuple) and a[1][0] == "closure":
                    cl, key = a, a[1][2]
                elif a[0] == "f":
                    cal = thaw(a[1]) or {}
                    cl, key = a, cal.get("key")
            if cl is None or key not in p.fns:
                raise Anchor("%s: cannot resolve the body of a spawned thread" % name)
            if contains(cl, lambda x: x[0] in ("top", "undef", "weak")):
                raise Anchor("%s: cannot tell what a thread captures" % name)
            k = (e[5],)
            if k in self.threads and self.threads[k].closure != cl:
                raise Anchor("%s: a spawn site starts different threads" % name)
            self.threads.setdefault(k, Thread(cl, e[4], key))
        self.readers, self.writers = [], []
        for t in self.threads.values():
            args = [globalize(t.closure, an)] if t.closure[0] == "a" else []
            t.captures = args[0] if args else UNIT
            t.graph = chk.explore(p, t.key, args, maxstates=160)
            r = any(True for _ in t.graph.events("read"))
            w = any(e[0] in ("write", "write_partial", "flush") for e in t.graph.events())
            if not r and any(call_match(e, re.compile(r"serde_json::from_reader")) for e in t.graph.events("call")):
                r = True
            t.role = "both" if r and w else "reader" if r else "writer" if w else "other"
            if r:
                self.readers.append(t)
            if w:
                self.writers.append(t)

    def glob(self, v):
        return globalize(v, self.g.an)


def transports(chk):
    out = []
    for n in ("stdio", "connect", "listen"):
        out.append(Transport(chk, n))
    return out


def distinct(ts, role):
    """One representative per distinct thread body and capture shape."""
    seen = set()
    for t in ts:
        for th in (t.readers if role == "reader" else t.writers):
            if th.key in seen:
                continue
            seen.add(th.key)
            yield t, th


# ---- the writer thread -------------------------------------------------------------------------
class WriterRule:
    """q = (phase, msg, acc, sink, pend, done)
    phase: start | waiting(recv result unknown) | have | disc | failed
    pend: result symbols of effects whose outcome is not yet known to be Ok"""

    def __init__(self, chk, t, th):
        self.chk, self.t, self.th = chk, t, th
        self.N = Names(chk)
        self.recvd = 0
        self.completed = 0
        self.ended = 0
        self.envelopes = {}
        self.causes = set()

    def cause(self, where, kind, x, pay, fail):
        self.causes.add((where, kind))
        why = wrong_cause(self.chk.P.server, kind, x, pay)
        if why:
            fail("C29: error of a failed %s is replaced" % ("write" if kind == "io" else "serialization"), "%s: ends with %s" % (why, pv(self.th.graph.an, pay)))

    q0 = ("start", None, S(""), None, (), False)

    def expected(self, acc, msg):
        """The frame of msg: None if acc is no complete frame; otherwise the JSON term's argument."""
        if acc[0] != "app" or acc[1] != "cat":
            return None
        parts = acc[2]
        if len(parts) != 4:
            return None
        h, n, sep, b = parts
        if h != S("Content-Length: ") or sep != S("\r\n\r\n"):
            return None
        if n != ("app", "display", (("app", "len", (b,)),)):
            return None
        if not (b[0] == "fld" and b[2:] == (0, 0) and b[1][0] == "app" and b[1][1] == "serde_json::to_string"):
            return None
        return b[1][2][0]

    def step(self, q, e, fail):
        phase, msg, acc, sink, pend, done = q
        k = e[0]
        if k == "call" and RECV.search(e[1]):
            if pend:
                fail("C01|C11: result of a write is not checked before the next message", "the outcome of a write or flush is ignored: the next message is taken although it may have failed")
            if phase == "failed":
                fail("C11: goes on after a failed write", "after an output error the writer takes another message")
            if phase == "have" and not done:
                fail("C01|C11: message dropped", "a message taken from the channel is not completely written and flushed before the next one is taken")
            if not e[1].endswith("::recv"):
                fail("C11: waits for messages with " + e[1].rsplit("::", 1)[1], "the writer must block until a message or the end of the connection")
            self.recvd += 1
            return ("waiting", e[4], S(""), sink, (), False)
        if k == "assume" and e[2] == "=" and e[1][0] == "discr":
            x, c = e[1][1], e[3]
            if phase == "waiting" and x == msg:
                return ("have", ok(msg), S(""), sink, (), False) if c == I(0) else ("disc", None, S(""), sink, (), False)
            if x in pend:
                if c == I(0):
                    return (phase, msg, acc, sink, tuple(y for y in pend if y != x), done)
                return ("failed", msg, ("io", x), sink, (), done)
            if phase == "have" and x[0] == "app" and x[1] == "serde_json::to_string" and c == I(1):
                return ("failed", msg, ("json", x), sink, (), done)
            return q
        if k in ("write", "write_partial", "flush"):
            if pend:
                fail("C01|C11: result of a write is not checked before the next write", "an output error would go unnoticed")
            if phase == "failed":
                fail("C01|C11: writes after a failed write", "bytes are written after an output error, in the middle of a frame")
                return None
            if phase != "have":
                fail("C01: writes outside a message", "bytes are written that belong to no message")
                return None
            if sink is not None and sink != e[1]:
                fail("C01: writes to different sinks", "one message goes to two outputs")
            sink = e[1]
            if k == "write_partial":
                fail("C01: Write::write may write only part of its buffer", "use of a call that may write less than the frame")
                return None
            if k == "write":
                if done:
                    fail("C01: bytes after the end of a frame", "bytes follow a complete message")
                acc2 = models.cat(acc, e[2])
                return (phase, msg, acc2, sink, pend + (e[3],), False)
            # flush
            x = self.expected(acc, msg)
            if x is not None:
                self.envelope(x, msg, fail)
                self.completed += 1
                return (phase, msg, acc, sink, pend + (e[3],), True)
            return (phase, msg, acc, sink, pend + (e[3],), False)
        if k == "print" and e[1] == "stdout":
            return q
        if k == "ret":
            for v, pay in results(frozenset(), e[1]):
                if v is None:
                    fail("C01|C11: cannot tell how the writer ends", "")
                    continue
                if phase == "disc":
                    self.ended += 1
                    if v != OK:
                        fail("C11: ends with an error although the connection was closed normally", "the writer must end successfully when every sender is gone")
                elif phase == "failed":
                    if v != ERR:
                        fail("C11: ends successfully after an output error", "a failed write, flush or serialization must be reported by the writer")
                    else:
                        self.cause("output", acc[0], acc[1], pay, fail)
                elif v == ERR:
                    if not pend or e[1][0] != "res" and not any(contains(e[1], lambda y: y == z) for z in pend):
                        fail("C11: ends with an error without a cause", "the writer gives up although nothing failed")
                    else:
                        for z in pend:
                            if contains(e[1], lambda y: y == z):
                                self.cause("output", "io", z, pay, fail)
                else:
                    if pend and not is_sym(e[1]):
                        fail("C01|C11: result of a write is not checked before the end", "an output error would go unnoticed")
                    fail("C11: stops although messages may still come", "the writer ends before the connection is closed")
            return None
        if k == "panic" and self.chk.id == "C11":
            return q
        return q

    def envelope(self, x, msg, fail):
        """x is what is serialized as the body: it must carry msg and the protocol version."""
        if not contains(x, lambda y: y == msg):
            fail("C01: the body is not the message taken from the channel", "the frame carries something else than the message being written")
            return
        key = self.norm(x, msg)
        if key not in self.envelopes:
            self.envelopes[key] = envelope_ok(self.chk, key, ("g", "msg"))
        bad = self.envelopes[key]
        if bad:
            fail("C01: " + bad, "the body must be one JSON object: \"jsonrpc\": \"2.0\" and the members of the message")

    def norm(self, x, msg):
        return globalize(subst(x, msg, ("g", "msg")), self.th.graph.an)


def flat_entries(chk, p, x, msg):
    """Members the value x serializes to: list of (name, value) / ('flatten', value), or a string saying what is wrong."""
    if x[0] != "a" or not isinstance(x[1], str):
        return "cannot tell how the body is serialized"
    key = models.impl_fn(p, "Serialize", "serialize", x[1])
    if key is None:
        return "no Serialize implementation found for the body"
    g = chk.explore(p, key, [x, ("arg", 1)], opaque=lambda c, an: bool(re.search(r"Serialize::serialize$", c.tpath)))
    outs = set()
    bad = []

    def step(q, e, fail):
        if e[0] == "call":
            m = re.search(r"serde::ser::Serialize(Struct|Map)::serialize_(entry|field|key|value)$", e[2]) or re.search(r"Serialize(Struct|Map)::serialize_(entry|field|key|value)", e[1])
            if m and len(e[3]) >= 3:
                return q + ((pv_name(e[3][1]), e[3][2]),)
            if re.search(r"Serialize::serialize$", e[2]):
                if "FlatMapSerializer" in " ".join(e[6]) or contains(e[3][1], lambda y: y[0] == "a" and "FlatMapSerializer" in str(y[1])):
                    return q + (("flatten", e[3][0]),)
                return q + (("as", e[3][0]),)
        if e[0] == "ret":
            for v, pay in results(frozenset(), e[1]):
                if v == OK and (e[1][0] == "a" or True):
                    outs.add((q, contains(pay, lambda y: y[0] == "res") or v is None))
            return None
        return q
    chk.simulate(g, (), step, "body")
    full = [q for q, _ in outs]
    if not full:
        return "the body's serializer never succeeds"
    return max(full, key=len) if len({q for q in full if len(q) == max(len(x) for x in full)}) == 1 else "the body's serializer has several shapes"


def pv_name(v):
    return v[1] if v[0] == "s" else v


def envelope_ok(chk, x, msg):
    p = chk.P.server
    ent = flat_entries(chk, p, x, msg)
    if isinstance(ent, str):
        return ent
    names = [n for n, _ in ent]
    if ("jsonrpc", S("2.0")) not in ent:
        return 'the body lacks "jsonrpc": "2.0"'
    if names.count("jsonrpc") != 1:
        return 'the body has "jsonrpc" twice'
    fl = [v for n, v in ent if n == "flatten"]
    if fl != [msg]:
        return "the body does not carry the message's members"
    if len(ent) != 2:
        return "the body has members that are not the message's"
    return None


def untagged_message(chk):
    """Message serializes exactly as the variant's payload."""
    p = chk.P.server
    N = Names(chk)
    key = models.impl_fn(p, "Serialize", "serialize", N.msg)
    if key is None:
        raise Anchor("no Serialize for Message")
    g = chk.explore(p, key, opaque=lambda c, an: bool(re.search(r"Serialize::serialize$", c.tpath)))
    seen = {}

    def step(q, e, fail):
        kn, calls = q
        if e[0] == "assume":
            return (learn(kn, e), calls)
        if e[0] == "call":
            if re.search(r"Serialize::serialize$", e[2]):
                return (kn, calls + ((e[3][0], e[4]),))
            if re.search(r"serde::(ser::)?Serializer::", e[2]):
                return (kn, calls + ((("other", e[2]), e[4]),))
        if e[0] == "ret":
            vs = possible(kn, ("arg", 0), len(N.mv))
            for v in vs:
                seen[v] = seen.get(v, 0) + 1
                good = len(calls) == 1 and calls[0][0] == fld(("arg", 0), v, 0) and (e[1] == calls[0][1] or e[1][0] == "a")
                if not good:
                    fail("C01: Message::%s is not written as its payload" % N.mv[v], "calls: %r" % (calls,))
            return None
        return q
    chk.simulate(g, (frozenset(), ()), step, "Message::serialize")
    for i, n in enumerate(N.mv):
        chk.ob("Message::%s serializes as its payload" % n, bool(seen.get(i)), "no path serializes this kind of message")


def route(chk, fail):
    """Pass on only what concerns the property being decided."""
    def f(key, msg):
        m = re.match(r"^((?:C\d\d\|?)+): (.*)$", key)
        if m:
            if chk.id not in m.group(1).split("|"):
                return
            key = m.group(2)
        fail(key, msg)
    return f


def run_rule(chk, g, rule, name):
    chk.simulate(g, rule.q0, lambda q, e, fail: rule.step(q, e, route(chk, fail)), name)


OPTION = re.compile(r"(Tcp\w+|Socket\w*|Unix\w+|OwnedFd)\S*::(set_read_timeout|set_write_timeout|set_nonblocking|shutdown|set_ttl|set_linger)$")


def check_stream_options(chk, ts, kinds):
    """No code narrows how long or in which direction the connected stream may be used."""
    seen = 0
    for t in ts:
        for g in [t.g] + [th.graph for th in t.threads.values()]:
            for e in g.events("call"):
                m = OPTION.search(e[1])
                seen += 1
                if not m or m.group(2) not in kinds:
                    continue
                what, arg = m.group(2), e[3][1] if len(e[3]) > 1 else None
                harmless = arg is not None and (what.endswith("timeout") and is_none(arg) or what == "set_nonblocking" and arg == I(0))
                chk.ob("Connection::%s: the stream keeps blocking as long as it takes" % t.name, harmless,
                       "%s(%s) limits it" % (what, pv(g.an, arg) if arg is not None else ""),
                       key=None if harmless else "Connection::%s: %s limits the stream" % (t.name, what))
    chk.floor("calls of the transports looked at for stream options", seen, 10)


WRITING = ("set_write_timeout", "set_nonblocking", "shutdown")
READING = ("set_read_timeout", "set_nonblocking", "shutdown")


def check_writer(chk):
    ts = transports(chk)
    check_stream_options(chk, ts, WRITING)
    n = 0
    for t in ts:
        chk.ob("Connection::%s starts a writer thread" % t.name, len(t.writers) == 1, "found %d threads that write" % len(t.writers))
    for t, th in distinct(ts, "writer"):
        r = WriterRule(chk, t, th)
        n += 1
        run_rule(chk, th.graph, r, "writer of Connection::" + t.name)
        chk.ob("writer of Connection::%s: every message taken is framed, written and flushed" % t.name, r.completed > 0 and r.recvd > 0,
               "no path writes a complete frame 'Content-Length: <bytes of body>\\r\\n\\r\\n<body>' and flushes it")
        chk.ob("writer of Connection::%s: ends when the connection is closed" % t.name, r.ended > 0 or chk.id != "C11", "no path ends after disconnect")
    chk.floor("writer thread bodies", n, 1)
    if chk.id == "C01":
        untagged_message(chk)


# ---- the reader thread --------------------------------------------------------------------------
CL = "Content-Length"
LINE0 = (None,) * 9   # line, readres, eof, crlf, blank, sep, name, parse, value


def utf8_of(v):
    """The bytes v checks for being UTF-8, when it is such a check."""
    return v[2][0] if v[0] == "app" and "from_utf8" in v[1] and "lossy" not in v[1] and len(v[2]) == 1 else None


def as_text(v):
    """Bytes found to be UTF-8 and the text they make are one thing."""
    if not isinstance(v, tuple) or not v or v[0] in ("i", "s", "b", "f", "arg", "res", "g"):
        return v
    if v[0] == "fld" and v[2:] == (0, 0) and isinstance(v[1], tuple):
        b = utf8_of(v[1])
        if b is not None:
            return as_text(b)
    out = tuple(as_text(x) if isinstance(x, tuple) else x for x in v)
    return out if any(x is not y for x, y in zip(out, v)) else v


class ReaderRule:
    """C02 (what is read becomes exactly the messages sent) and C10 (each message is delivered once).

    q = (phase, line, size, cause, body, cur, kn, nmsg)
    phase: head | body | json | have | sent | end
    """

    def __init__(self, chk, t, th):
        self.chk, self.t, self.th = chk, t, th
        self.N = Names(chk)
        self.n = {"lines": 0, "bodies": 0, "parsed": 0, "sent": 0, "eof": 0, "exit": 0, "rejects": set()}
        self.causes = set()

    def cause(self, what, kind, x, pay, fail):
        self.causes.add(what)
        why = wrong_cause(self.chk.P.server, kind, x, pay)
        if why:
            fail("C29: %s is reported as something else" % what, "%s: ends with %s" % (why, pv(self.th.graph.an, pay)))

    # line facts: dict flattened as tuple
    F = ("line", "res", "eof", "crlf", "blank", "sep", "name", "parse", "val")
    q0 = ("head", (None,) * 9, None, None, None, None, frozenset(), 0)

    def lget(self, L, f):
        return L[self.F.index(f)]

    def lset(self, L, **kw):
        L = list(L)
        for a, b in kw.items():
            L[self.F.index(a)] = b
        return tuple(L)

    def H(self, line):
        """Terms that denote the line without its CRLF."""
        return slice_of(line, I(0), ("bin", "Sub", ("app", "len", (line,)), I(2)))

    def classify(self, e, L):
        """Update what is known about the current line."""
        line, res = L[0], L[1]
        if line is None:
            return L
        x, op, c = e[1], e[2], e[3]
        H = self.H(line)

        def truth():
            if op == "=":
                return c[1] if c[0] == "i" else None
            return None
        if x == ("discr", res):
            if op == "=" and c == I(1):
                return self.lset(L, eof="error")
            return L
        if x[0] == "discr" and utf8_of(x[1]) == line:
            if op == "=" and c == I(1):
                return self.lset(L, eof="no", crlf="no")        # no text: not a header line
            return L
        if x == ok(res) or x == ("app", "len", (line,)):
            if op == "=" and c == I(0):
                return self.lset(L, eof="yes")
            if op == "!" and I(0) in c or op == "=":
                return self.lset(L, eof=L[2] or "no")
        if x == ("app", "ends_with", (line, S("\r\n"))):
            return self.lset(L, crlf="yes" if c == I(1) else "no")
        if x == ("app", "len", (H,)):
            if op == "=" and c == I(0):
                return self.lset(L, blank="yes")
            if op == "!" and I(0) in c:
                return self.lset(L, blank="no")
        if x == line:
            if op == "=" and c == S("\r\n"):
                return self.lset(L, blank="yes", crlf="yes", eof="no")
            if op == "=" and c == S(""):
                return self.lset(L, eof="yes")
            if op == "!":
                if S("\r\n") in c:
                    L = self.lset(L, blank="no")
                if S("") in c:
                    L = self.lset(L, eof=L[2] or "no")
                return L
        if x == H:
            if op == "=" and c == S(""):
                return self.lset(L, blank="yes")
            if op == "!" and S("") in c:
                return self.lset(L, blank="no")
        for sep in (": ", ":"):
            if x == ("app", "contains", (H, S(sep))):
                if sep == ": ":
                    return self.lset(L, sep="yes" if c == I(1) else "no")
        if x == ("app", "before", (H, S(": "))):
            if op == "=":
                return self.lset(L, name="yes" if c == S(CL) else "no")
            if op == "!" and S(CL) in c:
                return self.lset(L, name="no")
        if x == ("app", "starts_with", (H, S(CL + ": "))):
            return self.lset(L, name="yes", sep="yes") if c == I(1) else self.lset(L, name="no")
        if x[0] == "discr" and self.is_parse(x[1], H):
            return self.lset(L, parse="ok" if c == I(0) else "err", val=ok(x[1]))
        return L

    def is_parse(self, v, H):
        if v[0] == "app" and v[1].startswith("core::str::<impl str>::parse") or v[0] == "app" and "FromStr" in v[1]:
            a = v[2][0]
            n = len(CL) + 2
            return a in (("app", "after", (H, S(": "))), slice_of(H, I(n), None))
        return False

    def line_verdict(self, L):
        """What the line that was read requires: 'ok' (an ordinary header), 'size' (a Content-Length),
        'blank', 'reject', 'eof', 'error', or (None, why)."""
        line, res, eof, crlf, blank, sep, name, parse, val = L
        if eof == "error":
            return "error"
        if eof == "yes":
            return "eof"
        if crlf == "no":
            return "reject"
        if eof is None and crlf != "yes":
            return (None, "end of input is not examined")
        if crlf is None:
            return (None, "line end is not examined")
        if blank == "yes":
            return "blank"
        if sep == "no":
            return "reject" if blank == "no" else (None, "blank line is not recognised")
        if sep is None:
            return (None, "header line without \": \" is not rejected")
        if name == "no":
            return "ok"
        if name is None:
            return (None, "header name is not examined")
        if parse == "ok":
            return "size"
        if parse == "err":
            return "reject"
        return (None, "Content-Length value is not examined")

    def step(self, q, e, fail):
        phase, L, size, cause, body, cur, kn, nmsg = q
        k = e[0]
        if phase in ("head", "body") and k in ("assume", "read"):
            e = tuple(as_text(x) for x in e)
        if k == "assume":
            L2 = self.classify(e, L) if phase == "head" else L
            kn2 = kn
            if cur is not None and contains(e[1], lambda y: y == cur):
                kn2 = learn(kn, e)
            if phase == "head" and size is not None and self.empty(e, size) and L2[0] is not None and self.line_verdict(L2) == "blank":
                # an empty body: there is nothing to read
                return ("body", (None,) * 9, size, None, (("pieces", None), S(""), None, True, "no"), None, frozenset(), 1)
            if size is not None and (phase == "head" or phase == "body" and isinstance(body[0], tuple)) and e[1][0] == "bin" and e[1][1] == "Lt":
                kn2 = kn | {(e[1], e[2], e[3])}
            if phase == "body":
                body, cause = self.body_assume(e, body, cause, size)
            if phase == "json" and e[1] == ("discr", cur):
                if e[3] == I(0) and e[2] == "=":
                    return ("have", (None,) * 9, None, None, None, ok(cur), frozenset(), nmsg)
                return ("json", L, None, "json", None, cur, kn, nmsg)
            if phase == "sent" and body is not None and e[1] == ("discr", body) and e[2] == "=":
                if e[3] == I(0):
                    return ("sent", L, size, cause, "delivered", cur, kn2, nmsg)
                return ("sent", L, size, "send", None, cur, kn2, nmsg)
            return (phase, L2, size, cause, body, cur, kn2, nmsg)
        if k == "buffered" and e[1] == "BufReader" and nmsg:
            fail("C02|C12: a new read buffer is started after reading has begun", "bytes already buffered by the previous reader are lost")
            return q
        if k == "read":
            return self.on_read(q, e, fail)
        if k == "gather":
            return self.on_gather(q, e, fail)
        if k == "call":
            m = PEEK.search(e[1]) or PEEK.search(e[2])
            if m and e[3] and contains(e[3][0], self.input):
                return self.on_peek(q, e, fail, next(y for y in m.groups() if y))
            m = FROMJSON.search(e[1]) or FROMJSON.search(e[2])
            if m:
                return self.on_json(q, e, fail, m.group(1))
            if SEND.search(e[1]):
                return self.on_send(q, e, fail)
            return q
        if k == "ret":
            self.on_ret(q, e, fail)
            return None
        return q

    # -- reading
    def on_read(self, q, e, fail):
        phase, L, size, cause, body, cur, kn, nmsg = q
        _, name, src, old, new, res, site, want, facts = e
        if cause is not None and cause != "eof-soft":
            fail("C02|C10: goes on after %s" % CAUSES.get(cause, cause), "the reader must end with an error")
            return None
        if phase == "have":
            fail("C10: message dropped", "a message that was read is not handed to the connection before the next one is read")
            phase = "head"
            L, size = (None,) * 9, None
        if phase == "sent":
            if body != "delivered":
                fail("C10: result of the hand-over is not checked", "the reader goes on although the connection may be gone")
            ex = self.N.is_exit(kn, cur)
            if ex is not False:
                fail("C10: reads on after the exit notification", "the reader must end after delivering exit")
            phase, L, size, body, cur, kn = "head", (None,) * 9, None, None, None, frozenset()
        if phase == "json":
            fail("C02: parse result is not examined", "")
            return None
        if phase == "body" and isinstance(body[0], tuple) and (body[0][1] is not None or body[1] != S("")):
            return self.piece_read(q, e, fail, name, new, res, want, facts)
        if phase == "body" and isinstance(body[0], tuple):
            pass                            # nothing was read so far
        elif phase == "body":
            fail("C02: body is read in pieces or a second time", "cannot show that exactly the announced bytes are read")
            return None
        if name in ("read_line", "read_until"):
            if old != S(""):
                fail("C02: a header line is appended to what was read before", "the line buffer is not empty when the line is read")
                return None
            if src[0] == "app" and src[1] == "take" and not (src[2][1][0] == "i" and src[2][1][1] >= (1 << 64) - 1):
                fail("C02: a header line is read only up to a limit", "a longer line would be cut: limit %s" % (pv(self.th.graph.an, src[2][1]),))
                return None
            if name == "read_until" and want != I(10):
                fail("C02: header lines are not read up to the line feed", "delimiter %s" % (pv(self.th.graph.an, want) if want else "unknown",))
                return None
            size2 = self.after_line(L, size, fail, "header")
            if size2 is False:
                return None
            self.n["lines"] += 1
            return ("head", self.lset((None,) * 9, line=new, res=res), size2, None, "mid" if L[0] is not None else None, None, frozenset(), 1)
        # a body
        v = "blank" if phase == "body" else self.line_verdict(L) if L[0] is not None else (None, "no header")
        if v != "blank":
            fail("C02: body is read before the blank line", "%s" % (v if isinstance(v, str) else v[1],))
            return None
        if size is None:
            fail("C02: body is read although no Content-Length was given", "")
            return None
        n = ok_size(size)
        if name == "read" or name == "read_exact" and not same_int(want, size):
            return self.piece_read((phase, L, size, cause, (("pieces", None), S(""), None, True, None), cur, kn, nmsg), e, fail, name, new, res, want, facts)
        if name in ("read_to_end", "read_to_string"):
            if old != S(""):
                fail("C02: the body is appended to what was read before", "the body buffer is not empty")
                return None
            if not (src[0] == "app" and src[1] == "take" and same_int(src[2][1], size)):
                fail("C02: body length is not the announced Content-Length", "read from %s" % (pv(self.th.graph.an, src),))
                return None
            b = ("limit", new, res, None, None)
        elif name == "read_exact":
            if src[0] == "app" and src[1] == "take" and not same_int(src[2][1], size):
                fail("C02: body length is not the announced Content-Length", "read from %s" % (pv(self.th.graph.an, src),))
                return None
            if not same_int(want, size):
                fail("C02: body length is not the announced Content-Length", "reads %s bytes" % pv(self.th.graph.an, want or ("g", "?")))
                return None
            b = ("exact", new, res, None, "no")
        else:
            fail("C02: %s may read less than the body" % name, "")
            return None
        self.n["bodies"] += 1
        return ("body", (None,) * 9, size, None, b, None, frozenset(), 1)

    # -- a body that is collected piece by piece: B, what there is so far, is all that was read since the header,
    #    and every piece is at most what is missing
    def empty(self, e, size):
        x, op, c = e[1], e[2], e[3]
        zero = lambda y: y == I(0)
        if same_int(x, size):
            return op == "=" and c == I(0)
        if x[0] == "bin" and x[1] == "Lt" and x[2] == I(0) and same_int(x[3], size):
            return c == I(0)
        return x[0] == "eq" and any(map(zero, x[1:])) and any(same_int(y, size) for y in x[1:]) and c == I(1)

    def fits(self, facts, kn, want, size, B):
        """Is want at least one byte and at most what is missing?"""
        if want is None or want[0] in ("top", "undef"):
            return False
        from rules_safety import Linear
        L = Linear({**facts, **{t: (op, c) for t, op, c in kn}})
        have = I(0) if B == S("") else ("app", "len", (B,))

        def some(t):
            if t[0] == "app" and re.search(r"(::|^)min(::<.*>)?$", t[1]) and len(t[2]) == 2:
                return all(some(y) for y in t[2])
            return L.implies(I(1), t)
        return L.implies(want, ("bin", "Sub", size, have)) and some(want)

    def piece_read(self, q, e, fail, name, new, res, want, facts):
        phase, L, size, cause, body, cur, kn, nmsg = q
        (_, pend), B, _, okk, short = body
        if pend is not None:
            fail("C02: bytes of the body that were read are dropped", "the next piece is read before the last one is kept")
            return None
        if short == "no":
            fail("C02: reads on after the body", "")
            return None
        if name not in ("read", "read_exact", "fill_buf"):
            fail("C02: body is read in pieces or a second time", "cannot show that exactly the announced bytes are read")
            return None
        if name != "fill_buf" and not self.fits(facts, kn, want, size, B):
            fail("C02: a piece of the body may be longer than what is missing", "asks for %s" % (pv(self.th.graph.an, want) if want else "an unknown number of bytes",))
            return None
        self.n["bodies"] += 1
        return ("body", (None,) * 9, size, None, (("pieces", (name, new, want)), B, res, None, None), None, kn, 1)

    def input(self, v):
        return v[0] == "app" and v[1] in ("BufReader", "take") or v[0] == "g" and v[1] == "std::io::stdin" or v in self.srcs

    srcs = ()

    def on_peek(self, q, e, fail, what):
        phase, L, size, cause, body, cur, kn, nmsg = q
        if what == "fill_buf" and cause is None:
            if phase == "head" and size is not None and L[0] is not None and self.line_verdict(L) == "blank":
                q = ("body", L, size, None, (("pieces", None), S(""), None, True, None), cur, kn, nmsg)
            if q[0] == "body" and isinstance(q[4][0], tuple):
                return self.piece_read(q, e, fail, what, ok(e[4]), e[4], None, e[8])
        if what == "consume" and phase == "body" and isinstance(body[0], tuple) and body[0][1] is not None and body[0][1][0] == "eat" and e[3][1] == body[0][1][1]:
            return (phase, L, size, cause, (("pieces", None),) + body[1:], cur, kn, nmsg)
        fail("C02: the input is read in a way that is not followed", "%s" % what)
        return None

    def on_gather(self, q, e, fail):
        phase, L, size, cause, body, cur, kn, nmsg = q
        if phase != "body" or not isinstance(body[0], tuple):
            return q
        (_, pend), B, res, okk, short = body
        _, old, piece, new, site, facts = e
        good = pend is not None and pend[0] != "eat" and old == B and okk and cause is None
        nxt = None
        if good and pend[0] == "fill_buf":
            n = piece[2][2] if piece[0] == "app" and piece[1] == "slice" and piece[2][0] == pend[1] and piece[2][1] == I(0) else None
            good = n is not None and self.fits(facts, kn, n, size, B)
            nxt = ("eat", n)
        elif good:
            n = ok(res) if pend[0] == "read" else pend[2]
            parts = [pend[1]] if pend[0] == "read_exact" else []
            if piece[0] == "app" and piece[1] == "slice" and piece[2][1] == I(0) and piece[2][2] == n:
                b = piece[2][0]
                if b[0] == "app" and b[1] == "setslice" and b[2][1] == I(0):
                    b = b[2][3]
                good = b == pend[1]
            else:
                good = piece in parts
        if not good:
            fail("C02: what is kept of the body is not exactly what was read", "keeps %s" % pv(self.th.graph.an, piece))
            return None
        # what was known about how much there was is no longer known
        kn = frozenset(f for f in kn if not contains(f[0], lambda y: y == new))
        kn = frozenset(f for f in kn if not contains(f[0], lambda y: y[0] in ("old", "weak") and y[1] == new))
        return (phase, L, size, cause, (("pieces", nxt), new, res, True, None), cur, kn, nmsg)

    def piece_assume(self, e, b, cause, size):
        (_, pend), B, res, okk, short = b
        x, op, c = e[1], e[2], e[3]
        if res is not None and x == ("discr", res) and op == "=":
            if c == I(0):
                okk = True
            else:
                cause = "body"
        if cause == "body" and res is not None:
            why = lambda y: y[0] == "app" and re.search(r"Error>?::kind$", y[1]) is not None and y[2][0] == fld(res, 1, 0)
            def interrupted(y):
                if y[0] != "a" or not str(y[1]).endswith("io::ErrorKind"):
                    return False
                return self.chk.P.server.adts[y[1]]["variants"][y[2]]["name"] == "Interrupted"
            if x[0] == "eq" and any(map(why, x[1:])) and any(map(interrupted, x[1:])) and op == "=" and c == I(1):
                cause, pend, okk = None, None, True         # nothing was read: try again
            elif x[0] == "discr" and why(x[1]) and op == "=" and c[0] == "i":
                ek = next((a for n, a in self.chk.P.server.adts.items() if n.endswith("io::ErrorKind")), None)
                if ek and any(v["name"] == "Interrupted" and (v["discr"] if v["discr"] is not None else i) == c[1] for i, v in enumerate(ek["variants"])):
                    cause, pend, okk = None, None, True
        if pend is not None and pend[0] == "read" and x == ok(res) and op == "=" and c == I(0):
            cause = "short"
        if pend is not None and pend[0] == "read" and x[0] == "eq" and ok(res) in x[1:] and I(0) in x[1:] and op == "=" and c == I(1):
            cause = "short"
        if pend is not None and pend[0] == "fill_buf":
            n = ("app", "len", (pend[1],))
            if x == n and op == "=" and c == I(0) or x[0] == "eq" and n in x[1:] and I(0) in x[1:] and op == "=" and c == I(1):
                cause = "short"
        if pend is None:
            have = [I(0)] if B == S("") else [("app", "len", (B,))]
            if x[0] == "bin" and x[1] == "Lt" and x[2] in have and same_int(x[3], size) and c == I(0):
                short = "no"
            if x[0] == "eq" and any(h in x[1:] for h in have) and any(same_int(y, size) for y in x[1:]) and op == "=" and c == I(1):
                short = "no"
        if x[0] == "discr" and x[1][0] == "app" and "from_utf8" in x[1][1] and x[1][2][0] == B and c == I(1):
            cause = "utf8"
        return (("pieces", pend), B, res, okk, short), cause

    def after_line(self, L, size, fail, nxt):
        """The previous line must have been an acceptable header line when another line is read."""
        if L[0] is None:
            return size
        v = self.line_verdict(L)
        if v == "ok":
            return size
        if v == "size":
            return L[8]
        if isinstance(v, tuple):
            fail("C02: " + v[1], "the next line is read without having examined this one")
        elif v == "blank":
            fail("C02: header lines are read past the blank line", "the blank line ends the header")
        elif v == "eof":
            fail("C02|C10: reads on at the end of input", "the reader must end at the end of input")
        elif v == "reject":
            fail("C02: malformed header line is accepted", "a line without CRLF or \": \", or a Content-Length that is no number, must be an error")
        else:
            fail("C02: read error is ignored", "")
        return False

    def body_assume(self, e, b, cause, size):
        if isinstance(b[0], tuple):
            return self.piece_assume(e, b, cause, size)
        kind, buf, res, okk, short = b
        x, op, c = e[1], e[2], e[3]
        if x == ("discr", res) and op == "=":
            if c == I(0):
                okk = True
            else:
                cause = "body"
        got = (("app", "len", (buf,)), ok(res))
        if kind == "limit":
            for g in got:
                if x[0] == "bin" and x[1] == "Lt" and x[2] == g and same_int(x[3], size):
                    short = "yes" if c == I(1) else "no"
                if x[0] == "bin" and x[1] in ("Eq",) and g in x[2:] and any(same_int(y, size) for y in x[2:]):
                    short = "no" if c == I(1) else "yes"
                if x[0] == "eq" and g in x[1:] and any(same_int(y, size) for y in x[1:]) and op == "=":
                    short = "no" if c == I(1) else "yes"
            # what Take has left after reading to its end
            left = [y for y in (x, x[2], x[3]) if y[0] == "app" and y[1] == "limit"] if x[0] == "bin" else [y for y in x[1:] if y[0] == "app" and y[1] == "limit"] if x[0] == "eq" else [x] if x[:2] == ("app", "limit") else []
            for y in left:
                if not (y[2][0][0] == "app" and y[2][0][1] == "take" and same_int(y[2][0][2][1], size)):
                    continue
                if x[0] == "bin" and (x[1:] == ("Lt", I(0), y) or x[1:] == ("Gt", y, I(0))):
                    short = "yes" if c == I(1) else "no"
                if x == y and (op == "=" and c == I(0) or op == "!" and I(0) in c):
                    short = "no" if op == "=" else "yes"
                if x[0] == "eq" and I(0) in x[1:] and op == "=":
                    short = "no" if c == I(1) else "yes"
            if short == "yes":
                cause = "short"
        # bytes that are not UTF-8
        if x[0] == "discr" and x[1][0] == "app" and "from_utf8" in x[1][1] and x[1][2][0] == buf and c == I(1):
            cause = "utf8"
        return (kind, buf, res, okk, short), cause

    # -- parsing
    def on_json(self, q, e, fail, fn):
        phase, L, size, cause, body, cur, kn, nmsg = q
        if phase in ("head", "have", "sent"):
            if phase == "head":
                fail("C02: JSON is parsed that is not a message body", "argument %s" % pv(self.th.graph.an, e[3][0]))
                return None
            return q      # e.g. looking into a message that was parsed: no effect on the input
        if phase != "body":
            return q
        kind, buf, res, okk, short = body
        a = e[3][0]
        utf = a[0] == "fld" and a[2:] == (0, 0) and a[1][0] == "app" and "from_utf8" in a[1][1] and "lossy" not in a[1][1] and a[1][2][0] == buf
        if a == ("app", "unchecked_utf8", (buf,)):
            fail("C02: the body is not checked to be UTF-8", "argument %s" % pv(self.th.graph.an, a))
            return None
        if not (utf or (a == buf and fn in ("from_slice", "from_str"))):
            fail("C02: what is parsed is not exactly the body", "argument %s" % pv(self.th.graph.an, a))
            return None
        if not okk:
            fail("C02: body is used although reading it may have failed", "")
            return None
        if short != "no":
            fail("C02: a body shorter than its Content-Length is not rejected", "the input may have ended inside the body")
            return None
        if cause:
            fail("C02: goes on after %s" % CAUSES.get(cause, cause), "")
            return None
        self.n["parsed"] += 1
        return ("json", L, None, None, None, e[4], frozenset(), nmsg)

    def on_send(self, q, e, fail):
        phase, L, size, cause, body, cur, kn, nmsg = q
        if phase != "have" or e[3][1] != cur:
            if phase == "sent" and e[3][1] == cur:
                fail("C10: message delivered twice", "")
            else:
                fail("C10: sends something that is not the message just read", "sends %s" % pv(self.th.graph.an, e[3][1]))
            return None
        if not e[1].endswith("::send"):
            fail("C10: hands the message over with %s" % e[1].rsplit("::", 1)[1], "a message could be dropped when the receiver is slow")
        self.n["sent"] += 1
        return ("sent", L, size, cause, e[4], cur, kn, nmsg)

    # -- the end
    def on_ret(self, q, e, fail):
        phase, L, size, cause, body, cur, kn, nmsg = q
        for v, pay in results(frozenset(), e[1]):
            if v is None:
                fail("C02|C10: cannot tell how the reader ends", "")
                continue
            if phase == "head":
                d = self.line_verdict(L) if L[0] is not None else (None, "nothing was read")
                if d == "eof":
                    self.n["eof"] += 1
                    # an end of input inside a header may be reported either way
                    if v == ERR and body != "mid":
                        fail("C02: the end of input is reported as an error", "the input ended between messages")
                    continue
                if d == "error":
                    if v != ERR:
                        fail("C02: read error is not reported", "")
                    else:
                        self.cause("a failed read", "io", L[1], pay, fail)
                    continue
                if d == "reject" or d == "blank" and size is None:
                    self.n["rejects"].add(d)
                    if v != ERR:
                        fail("C02: malformed header ends the reader without an error", "")
                    else:
                        self.cause("a malformed header", "InvalidData", None, pay, fail)
                    continue
                if isinstance(d, tuple) and L[1] is not None and is_sym(e[1]) and e[1] == L[1] and v == ERR:
                    continue
                if v == ERR:
                    fail("C02: well-formed input is rejected", "an error is returned although %s" % (
                        "the header line is acceptable" if not isinstance(d, tuple) else d[1]))
                else:
                    fail("C02|C10: stops reading without a cause", "the reader ends although the input has not ended")
                continue
            if phase in ("body", "json"):
                if phase == "json" and cause is None and is_sym(e[1]) and contains(e[1], lambda y: y == cur):
                    cause2 = "json"
                else:
                    cause2 = cause
                if cause2:
                    self.n["rejects"].add(cause2)
                    if v != ERR:
                        fail("C02: %s is not reported as an error" % CAUSES.get(cause2, cause2), "")
                    elif cause2 == "json":
                        self.cause(CAUSES["json"], "json", cur if phase == "json" else None, pay, fail)
                    elif cause2 == "body":
                        self.cause(CAUSES["body"], "io", body[2] if body else None, pay, fail)
                    elif cause2 in KINDS:
                        self.cause(CAUSES[cause2], KINDS[cause2], None, pay, fail)
                elif v == ERR:
                    fail("C02: a complete body is rejected", "an error is returned although nothing is wrong with the body")
                else:
                    fail("C02: body is dropped", "the reader ends without delivering the message")
                continue
            if phase == "have":
                fail("C10: message dropped", "the reader ends without handing over the message it has read")
                continue
            if phase == "sent":
                if cause == "send":
                    if v != ERR:
                        fail("C10: a failed hand-over ends the reader without an error", "the connection is gone and the message was lost")
                    else:
                        self.cause(CAUSES["send"], "BrokenPipe", None, pay, fail)
                    continue
                if body != "delivered":
                    if v == ERR and contains(e[1], lambda y: y == body) and is_sym(e[1]):
                        continue
                    if not (is_sym(e[1]) and contains(e[1], lambda y: y == body)):
                        fail("C10: result of the hand-over is not checked", "the reader ends although the message may have been lost")
                ex = self.N.is_exit(kn, cur)
                if ex is True:
                    self.n["exit"] += 1
                    if v != OK:
                        fail("C10: the exit notification ends the reader with an error", "")
                else:
                    fail("C10: stops reading without a cause", "the reader ends after a message that need not be exit")

CAUSES = {"short": "the input ended inside the body", "body": "the body could not be read", "utf8": "a body that is not UTF-8",
          "json": "a body that is not a valid message", "send": "a failed hand-over"}


KINDS = {"short": "UnexpectedEof", "utf8": "InvalidData"}


def io_kind(p, v):
    """What an io::Error term says about its kind: ("kind", name) / ("kind of", error) / ("json", error) / ("same", error)."""
    if v[0] != "app":
        return ("same", v)
    k = v[2][0] if v[2] else None
    if re.search(r"(^|::|> )(Error|<impl std::io::Error>)(::new|::from|::simple_message|::new_simple)?(::<.*>)?$", v[1]) or re.search(r"io::error::<impl std::io::Error>::new|From<std::io::ErrorKind>>::from", v[1]):
        if k is not None and k[0] == "a" and k[1].endswith("io::ErrorKind"):
            return ("kind", p.adts[k[1]]["variants"][k[2]]["name"])
        if k is not None and k[0] == "app" and re.search(r"Error>?::kind$", k[1]):
            return ("kind of", k[2][0])
    if re.search(r"Error>?::other(::<.*>)?$", v[1]):
        return ("kind", "Other")
    if "From<serde_json::Error> for std::io::Error" in v[1] or re.search(r"serde_json::Error as std::convert::Into<std::io::Error>", v[1]):
        return ("json", k)
    return ("same", v)


def wrong_cause(p, kind, x, pay):
    """Why an error returned for a cause does not tell that cause, or None."""
    if pay is None:
        return "the error is not known"
    f, what = io_kind(p, pay)
    if kind == "io":
        return None if f in ("same", "kind of") and what == fld(x, 1, 0) else "not the I/O error that happened"
    if kind == "json":
        good = f == "json" and (x is None or what == fld(x, 1, 0)) or (
            (f, what) == ("kind", "InvalidData") and x is not None and contains(pay, lambda y: y == fld(x, 1, 0)))
        return None if good else "not the error of the JSON text"
    return None if (f, what) == ("kind", kind) else "expected an error of kind " + kind


def check_thread_errors(chk):
    """C29: each cause is reported as itself."""
    ts = transports(chk)
    n = 0
    for t, th in distinct(ts, "reader"):
        n += 1
        r = ReaderRule(chk, t, th)
        nm = "reader of Connection::" + t.name
        run_rule(chk, th.graph, r, nm)
        for c in ("a failed read", "a malformed header", CAUSES["body"], CAUSES["json"], CAUSES["send"]):
            chk.ob("%s: reports %s" % (nm, c), c in r.causes, "no path does")
    for t, th in distinct(ts, "writer"):
        n += 1
        r = WriterRule(chk, t, th)
        nm = "writer of Connection::" + t.name
        run_rule(chk, th.graph, r, nm)
        chk.ob(nm + ": reports a failed write", ("output", "io") in r.causes, "no path does")
    chk.floor("transport thread bodies", n, 2)


def ok_size(size):
    return size


def strip_cast(v):
    while v[0] == "app" and v[1].startswith("cast:") and re.match(r"cast:(u64|usize)->(u64|usize)$", v[1]):
        v = v[2][0]
    return v


def same_int(a, b):
    return a is not None and b is not None and strip_cast(a) == strip_cast(b) and a[0] not in ("top", "undef")


def check_reader(chk):
    ts = transports(chk)
    check_stream_options(chk, ts, READING)
    n = 0
    for t in ts:
        chk.ob("Connection::%s starts a reader thread" % t.name, len(t.readers) == 1, "found %d threads that read" % len(t.readers))
    for t, th in distinct(ts, "reader"):
        n += 1
        r = ReaderRule(chk, t, th)
        nm = "reader of Connection::" + t.name
        run_rule(chk, th.graph, r, nm)
        if chk.id == "C02":
            for what, why in (("lines", "reads header lines"), ("bodies", "reads a body of the announced length"), ("parsed", "parses the body"), ("eof", "ends quietly at the end of input")):
                chk.ob("%s: %s" % (nm, why), r.n[what] > 0, "no path does this")
            sizes = parse_types(th.graph)
            chk.ob("%s: the length is read as a machine-size integer" % nm, sizes and all(s in ("usize", "u64") for s in sizes), "parsed as %s" % sorted(sizes))
        else:
            chk.ob("%s: delivers messages" % nm, r.n["sent"] > 0, "no path hands a message over")
            chk.ob("%s: ends after exit" % nm, r.n["exit"] > 0, "no path ends after the exit notification")
    chk.floor("reader thread bodies", n, 1)


def parse_types(g):
    out = set()
    for e in g.events("call"):
        if e[1].startswith("core::str::<impl str>::parse"):
            out.add(e[6][0] if e[6] else "?")
        elif "FromStr" in e[1]:
            out.add(re.sub(r"^.*for (\w+)>.*$", r"\1", e[1]))
    return out
