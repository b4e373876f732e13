"""C07 the initialize handshake, C08 shutdown, C09 response constructors, C23 the send methods."""
from common import *

SELF = ("arg", 0)
CODES = {
    "parse_error": -32700, "invalid_request": -32600, "method_not_found": -32601, "invalid_params": -32602,
    "internal_error": -32603, "server_error_start": -32099, "server_error_end": -32000, "server_not_initialized": -32002,
    "request_canceled": -32800, "content_modified": -32801, "server_canceled": -32802,
}
CODE_NAMES = {
    "ParseError": -32700, "InvalidRequest": -32600, "MethodNotFound": -32601, "InvalidParams": -32602,
    "InternalError": -32603, "ServerErrorStart": -32099, "ServerErrorEnd": -32000, "ServerNotInitialized": -32002,
    "RequestCanceled": -32800, "ContentModified": -32801, "ServerCancelled": -32802,
}


def message_of(r):
    return ok(r)


class Kinds:
    def __init__(self, N):
        self.N = N

    def of(self, kn, r):
        """What the result r of a receive may be."""
        N = self.N
        out = set()
        for v in possible(kn, r, 2):
            if v == ERR:
                out.add("receive error")
                continue
            m = ok(r)
            for k in possible(kn, m, len(N.mv)):
                if k == N.REQ:
                    for i in possible(kn, fld(m, k, 0), len(N.rv)):
                        out.add("initialize" if i == N.INIT else "shutdown" if i == N.SHUTDOWN else "request")
                elif k == N.RESP:
                    out.add("response")
                elif k == N.NOTIF:
                    for i in possible(kn, fld(m, k, 0), len(N.nv)):
                        out.add("exit" if i == N.EXIT else "initialized" if i == N.INITIALIZED else "notification")
        return out

    def ids(self, kn, r):
        """The terms that are the id of the request received as r."""
        N = self.N
        q = fld(ok(r), N.REQ, 0)
        return {fld(q, i, 0) for i in possible(kn, q, len(N.rv))}


def known_failed(kn, r):
    return r is not None and possible(kn, r, 2) == {1}


def known_ok(kn, r):
    return r is not None and possible(kn, r, 2) == {0}


def json_failed(kn):
    return any(f[1] == "=" and f[2] == I(1) and f[0][0] == "discr" and f[0][1][0] == "app" and f[0][1][1] == "serde_json::to_value" for f in kn)


OTHER = {"shutdown", "request"}
DROPPED = {"notification", "initialized"}


def check_initialize(chk):
    p = chk.P.server
    N = Names(chk)
    K = Kinds(N)
    ctype, SI, RI = conn_fields(chk)
    root = chk.method_root(p, "Connection", "initialize")
    g = chk.explore(p, root, maxstates=160)
    n = {k: 0 for k in ("init", "refused", "done", "exit", "recv_err", "send_err", "notinit", "dropped", "response")}

    # q = (phase, r, kn, pend, init): r the last receive, pend the last send, init the initialize request
    def step(q, e, fail):
        phase, r, kn, pend, init = q
        if e[0] == "assume":
            return (phase, r, learn(kn, e), pend, init)
        if e[0] == "call" and RECV.search(e[1]):
            if e[3][0] != fld(SELF, 0, RI):
                fail("receives from something else than the connection", pv(g.an, e[3][0]))
                return None
            if not e[1].endswith("::recv"):
                fail("waits for a message with " + e[1].rsplit("::", 1)[1], "the handshake must wait for the peer")
            if phase == "got":
                ks = K.of(kn, r)
                if ks & {"initialize"}:
                    fail("an initialize request is passed over", "it must be processed and answered")
                if ks & OTHER:
                    fail("a request before initialization is not answered", "it must be answered with ServerNotInitialized")
                if "exit" in ks:
                    fail("goes on after exit", "exit before initialization must end the handshake with an error")
                if "receive error" in ks:
                    fail("goes on after the connection is closed", "the handshake never ends")
                if "response" in ks:
                    fail("a response before initialization is passed over", "it must end the handshake with an error")
                if ks <= DROPPED:
                    n["dropped"] += 1
            elif phase == "answered":
                if not known_ok(kn, pend):
                    fail("the outcome of a refusal is not checked", "a failed send goes unnoticed")
            elif phase == "processed":
                fail("waits for the peer before answering initialize", "")
                return None
            elif phase == "sentinit":
                if not known_ok(kn, pend):
                    fail("the outcome of the initialize answer is not checked", "a failed send goes unnoticed")
                return ("await", e[4], frozenset(), None, init)
            elif phase == "await":
                fail("a message other than initialized is passed over", "anything else than initialized must end the handshake with an error")
                return None
            return ("got", e[4], frozenset(), None, None)
        if e[0] == "call" and e[1] == "call-value":
            if e[3][0] != ("arg", 1):
                return q
            if phase != "got" or K.of(kn, r) != {"initialize"}:
                fail("the callback runs without an initialize request", "at that point: " + phase)
                return None
            want = fld(fld(ok(r), N.REQ, 0), N.INIT, 1)
            if e[3][1:] != (want,):
                fail("the callback gets something else than the request's parameters", pv(g.an, e[3][1]))
            return ("processed", r, kn, e[4], (fld(fld(ok(r), N.REQ, 0), N.INIT, 0), want))
        if e[0] == "call" and SEND.search(e[1]):
            if e[3][0] != fld(SELF, 0, SI):
                fail("sends to something else than the connection", pv(g.an, e[3][0]))
            if not e[1].endswith("::send"):
                fail("may give up sending: " + e[1].rsplit("::", 1)[1], "the message may be lost")
            resp = N.response(e[3][1])
            if resp is None:
                fail("sends something else than a response", pv(g.an, e[3][1]))
                return None
            if phase == "got":
                ks = K.of(kn, r)
                if not ks <= OTHER:
                    fail("answers something that is not a request to refuse", ", ".join(sorted(ks)))
                    return None
                if not (is_none(resp["result"]) and is_some(resp["error"]) and resp["error"][3][0][0] == "a" and resp["error"][3][0][3][N.ef["code"]] == I(CODES["server_not_initialized"])):
                    fail("a request before initialization is not answered with ServerNotInitialized", pv(g.an, e[3][1]))
                if resp["id"] not in K.ids(kn, r):
                    fail("a refusal carries another id than its request", pv(g.an, resp["id"]))
                n["refused"] += 1
                return ("answered", r, kn, e[4], None)
            if phase == "processed":
                if not (is_none(resp["error"]) and is_some(resp["result"]) and json_ok_of(resp["result"][3][0]) == pend):
                    fail("initialize is not answered with the callback's result", pv(g.an, e[3][1]))
                if resp["id"] != init[0]:
                    fail("the initialize answer carries another id than the request", pv(g.an, resp["id"]))
                n["init"] += 1
                return ("sentinit", r, kn, e[4], init)
            fail("sends a message the handshake does not have", "in phase %s: %s" % (phase, pv(g.an, e[3][1])))
            return None
        if e[0] == "ret":
            for v, pay in results(kn, e[1]):
                if v is None:
                    fail("cannot tell the outcome", pv(g.an, e[1]))
                elif v == OK:
                    if phase != "await":
                        fail("succeeds before the handshake is complete", "in phase " + phase)
                        continue
                    ks = K.of(kn, r)
                    if ks != {"initialized"}:
                        fail("succeeds without the initialized notification", "after " + ", ".join(sorted(ks)))
                    if pay != init[1]:
                        fail("returns something else than the request's parameters", pv(g.an, pay))
                    n["done"] += 1
                else:
                    if phase == "got":
                        ks = K.of(kn, r)
                        bad = ks - {"exit", "response", "receive error"}
                        if bad:
                            fail("gives up on %s" % ", ".join(sorted(bad)), "the handshake must go on")
                        n["exit"] += "exit" in ks
                        n["response"] += "response" in ks
                        n["recv_err"] += "receive error" in ks
                    elif phase in ("answered", "sentinit"):
                        if not known_failed(kn, pend):
                            fail("gives up although the answer was sent", "in phase " + phase)
                        n["send_err"] += 1
                    elif phase == "await":
                        if "initialized" in K.of(kn, r):
                            fail("gives up although initialized was received", "")
                        n["notinit"] += 1
                    elif phase == "processed" and json_failed(kn):
                        pass
                    else:
                        fail("gives up without a cause", "in phase " + phase)
            return None
        return q
    chk.simulate(g, ("start", None, frozenset(), None, None), step, "Connection::initialize")
    for k, why in (("init", "answers the initialize request"), ("refused", "refuses other requests"), ("done", "completes after initialized"),
                   ("exit", "ends with an error on exit"), ("response", "ends with an error on a response"), ("recv_err", "ends with an error when the connection closes"),
                   ("notinit", "ends with an error on anything but initialized"), ("send_err", "reports a failed send"), ("dropped", "drops other notifications")):
        chk.ob("Connection::initialize: some path %s" % why, n[k] > 0, "no path does")


UNIT_OF = {"secs": 1, "millis": 1e-3, "micros": 1e-6, "nanos": 1e-9, "mins": 60, "hours": 3600, "secs_f32": 1, "secs_f64": 1}


def seconds(v):
    """The length of a Duration value if it can be read off."""
    if v[0] == "a" and v[1] == "std::time::Duration" and len(v[3]) == 2:
        n = v[3][1]
        n = n[3][0] if n[0] == "a" and len(n[3]) == 1 else n
        return v[3][0][1] + n[1] / 1e9 if v[3][0][0] == "i" and n[0] == "i" else None
    if v[0] == "fld" and v[2:] == (1, 0):
        v = v[1]                     # the value of a checked operation
    if v[0] != "app" or "Duration" not in v[1]:
        return None
    op, a = v[1].split("::")[-1], v[2]
    if op.startswith("from_") and op[5:] in UNIT_OF and a[0][0] == "i":
        return a[0][1] * UNIT_OF[op[5:]]
    if op == "new" and all(x[0] == "i" for x in a):
        return a[0][1] + a[1][1] / 1e9
    m = re.match(r"(?:saturating_|checked_)?(add|sub|mul|div)$", op)
    if m and len(a) == 2:
        x = [y[1] if y[0] == "i" else seconds(y) for y in a]
        if None not in x:
            return {"add": lambda: x[0] + x[1], "sub": lambda: x[0] - x[1], "mul": lambda: x[0] * x[1], "div": lambda: x[0] / x[1] if x[1] else None}[m[1]]()
    return None


def from_now(v, nows):
    """The Duration d if v is now + d."""
    if v[0] == "fld" and v[2:] == (1, 0):
        v = v[1]
    if v[0] == "app" and re.search(r"Instant\b.*::(checked_)?add(::<.*>)?$", v[1]) and v[2][0] in nows:
        return v[2][1]
    return None


def is_json_null(p, v):
    x = json_ok_of(v)
    if x is not None:
        return x == UNIT or (x[0] == "a" and x[1] == OPTION and x[2] == 0)
    if v[0] == "a" and isinstance(v[1], str) and v[1].endswith("Value"):
        a = p.adts.get(v[1])
        return bool(a) and a["variants"][v[2]]["name"] == "Null"
    return False


def check_shutdown(chk):
    p = chk.P.server
    N = Names(chk)
    K = Kinds(N)
    ctype, SI, RI = conn_fields(chk)
    root = chk.method_root(p, "Connection", "handle_shutdown")
    g = chk.explore(p, root, maxstates=160)
    REQ = ("arg", 1)
    nows = {e[4] for e in g.events("call") if re.search(r"Instant::now$", e[1])}
    n = {k: 0 for k in ("true", "false", "other", "recv_err", "sent")}

    def step(q, e, fail):
        phase, r, kn = q
        if e[0] == "assume":
            return (phase, r, learn(kn, e))
        req = possible(kn, REQ, len(N.rv))
        if e[0] == "call" and SEND.search(e[1]):
            if e[3][0] != fld(SELF, 0, SI):
                fail("sends to something else than the connection", pv(g.an, e[3][0]))
            if req != {N.SHUTDOWN}:
                fail("sends something for a request that is not shutdown", pv(g.an, e[3][1]))
                return None
            if phase != "start":
                fail("answers shutdown more than once", "")
                return None
            if not e[1].endswith("::send"):
                fail("may give up sending: " + e[1].rsplit("::", 1)[1], "the answer may be lost")
            resp = N.response(e[3][1])
            if resp is None:
                fail("sends something else than a response", pv(g.an, e[3][1]))
                return None
            if not (is_none(resp["error"]) and is_some(resp["result"]) and is_json_null(p, resp["result"][3][0])):
                fail("shutdown is not answered with a null result", pv(g.an, e[3][1]))
            if resp["id"] != fld(REQ, N.SHUTDOWN, 0):
                fail("the shutdown answer carries another id than the request", pv(g.an, resp["id"]))
            n["sent"] += 1
            return ("sent", e[4], kn)
        if e[0] == "call" and RECV.search(e[1]):
            if e[3][0] != fld(SELF, 0, RI):
                fail("receives from something else than the connection", pv(g.an, e[3][0]))
            if req != {N.SHUTDOWN}:
                fail("takes a message although the request is not shutdown", "the message is lost to the server")
                return None
            if phase != "sent":
                fail("waits for exit before answering" if phase == "start" else "takes more than one message", "")
                return None
            how = e[1].rsplit("::", 1)[1]
            if how == "recv":
                fail("may wait for exit for ever", "the wait for exit must be bounded")
            elif how == "try_recv":
                fail("does not wait for exit", "the peer sends exit only after it has the answer")
            else:
                d = e[3][1] if how == "recv_timeout" else from_now(e[3][1], nows)
                s = seconds(d) if d is not None else None
                if s is None or abs(s - 30) > 1e-6:
                    fail("waits for exit for another time than 30 s", pv(g.an, e[3][1]) if s is None else "%s s" % s)
            return ("waited", e[4], kn)
        if e[0] == "ret":
            for v, pay in results(kn, e[1]):
                if v is None:
                    fail("cannot tell the outcome", pv(g.an, e[1]))
                elif v == OK and pay == I(1):
                    if req != {N.SHUTDOWN} or phase != "waited" or K.of(kn, r) != {"exit"}:
                        fail("returns true without shutdown and exit", "phase %s" % phase)
                    n["true"] += 1
                elif v == OK and pay == I(0):
                    if N.SHUTDOWN in req:
                        fail("returns false for shutdown", "")
                    n["false"] += 1
                elif v == OK:
                    fail("cannot tell the outcome", pv(g.an, pay))
                else:
                    if phase == "waited":
                        ks = K.of(kn, r)
                        if "exit" in ks:
                            fail("returns an error although exit was received", "")
                        n["recv_err"] += "receive error" in ks
                        n["other"] += bool(ks - {"receive error"})
                    elif phase == "sent" and known_failed(kn, r):
                        pass
                    elif phase == "start" and req == {N.SHUTDOWN} and json_failed(kn):
                        pass
                    else:
                        fail("returns an error without a cause", "phase %s" % phase)
            return None
        return q
    chk.simulate(g, ("start", None, frozenset()), step, "Connection::handle_shutdown")
    for k, why in (("sent", "answers shutdown"), ("true", "returns true after exit"), ("false", "returns false for other requests"),
                   ("other", "reports an unexpected message"), ("recv_err", "reports a receive error")):
        chk.ob("Connection::handle_shutdown: some path %s" % why, n[k] > 0, "no path does")


def check_responses(chk):
    p = chk.P.server
    N = Names(chk)
    rets = 0

    def each(name, want_ret, n_args):
        nonlocal rets
        root = chk.method_root(p, "Response", name)
        g = chk.explore(p, root)
        found = 0
        for e in g.events():
            if e[0] == "ret":
                found += 1
                r = N.bare_response(e[1])
                bad = "cannot tell what is returned: " + pv(g.an, e[1]) if r is None else want_ret(r)
                chk.ob("Response::%s" % name, not bad, bad or "", key="Response::%s: %s" % (name, bad) if bad else None)
        rets += found
        chk.ob("Response::%s returns" % name, found > 0, "no path returns")

    def w_ok(r):
        if r["id"] != ("arg", 0):
            return "the id is not the one given"
        if not is_none(r["error"]):
            return "a success carries an error"
        if not is_some(r["result"]):
            return "a success carries no result"
        if json_ok_of(r["result"][3][0]) != ("arg", 1):
            return "the result is not the JSON of the value given"
    each("ok", w_ok, 2)

    def w_err(code, msg):
        def f(r):
            if r["id"] != ("arg", 0):
                return "the id is not the one given"
            if not is_none(r["result"]):
                return "an error carries a result"
            if not is_some(r["error"]):
                return "an error response carries no error"
            er = r["error"][3][0]
            if er[0] != "a" or er[1] != N.rerr:
                return "cannot tell the error"
            x = er[3]
            if x[N.ef["code"]] != code:
                return "the code is not " + ("the one given" if code[0] == "arg" else str(code[1]))
            if x[N.ef["message"]] != msg:
                return "the message is not the one given"
            if not is_none(x[N.ef["data"]]):
                return "the error carries data nobody gave"
        return f
    each("err", w_err(("arg", 1), ("arg", 2)), 3)
    for name, code in CODES.items():
        each(name, w_err(I(code), ("arg", 1)), 2)
    ec = chk.adt(p, "ErrorCode")
    got = {v["name"]: int(v["discr"]) for v in p.adts[ec]["variants"]}
    for name, code in CODE_NAMES.items():
        d = got.get(name)
        if d is not None and d >= 1 << 31:
            d -= 1 << (64 if d >= 1 << 63 else 32)
        chk.ob("ErrorCode::%s is %d" % (name, code), d == code, "it is %s" % d, key="ErrorCode::%s is not %d" % (name, code) if d != code else None)
    chk.floor("response constructors", rets, 13)


def check_send(chk):
    p = chk.P.server
    ctype, SI, RI = conn_fields(chk)
    n = 0
    for name in ("send", "try_send", "send_timeout", "send_deadline"):
        root = chk.method_root(p, "Connection", name)
        g = chk.explore(p, root)
        nargs = p.fns[root]["argc"]

        def step(q, e, fail, name=name, nargs=nargs):
            if e[0] == "call" and SEND.search(e[1]):
                if q is not None:
                    fail("sends more than once", "")
                if e[3][0] != fld(SELF, 0, SI):
                    fail("sends to something else than the connection's sender", pv(g.an, e[3][0]))
                if e[1].rsplit("::", 1)[1] != name:
                    fail("does not use %s" % name, "uses " + e[1])
                if not is_into(e[3][1], ("arg", 1)):
                    fail("sends something else than the message given", pv(g.an, e[3][1]))
                if nargs > 2 and e[3][2] != ("arg", 2):
                    fail("does not pass on the time given", pv(g.an, e[3][2]))
                return e[4]
            if e[0] == "call" and RECV.search(e[1]):
                fail("takes a message", "")
            if e[0] == "panic":
                fail("may panic", describe(g, e) or "")
                return None
            if e[0] == "ret":
                if q is None:
                    fail("returns without sending", "")
                elif e[1] != q:
                    for v, pay in results(frozenset(), e[1]):
                        # rebuilt result: Ok only from Ok, Err(e) only from Err(e)
                        if e[1][0] != "a" or v == ERR and pay != err(q):
                            fail("does not return the outcome of sending", pv(g.an, e[1]))
                return None
            return q
        # a rebuilt result must agree with what is known about the outcome
        def step2(q, e, fail, step=step):
            r, kn = q
            if e[0] == "assume":
                return (r, learn(kn, e))
            if e[0] == "ret" and r is not None and e[1][0] == "a":
                for v, pay in results(kn, e[1]):
                    if possible(kn, r, 2) != {v}:
                        fail("does not return the outcome of sending", pv(g.an, e[1]))
            x = step(r, e, fail)
            return None if x is None and e[0] in ("ret", "panic") else (x, kn)
        chk.simulate(g, (None, frozenset()), step2, "Connection::" + name)
        n += sum(1 for e in g.events("ret"))
        chk.ob("Connection::%s delegates to the sender" % name, any(e[0] == "call" and SEND.search(e[1]) for e in g.events()), "never sends")
    chk.floor("send methods' results", n, 4)


def is_into(v, x):
    return v == x or v[0] == "app" and v[1].endswith(("into", "from")) and v[2] == (x,)
