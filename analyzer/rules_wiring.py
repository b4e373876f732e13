"""C12 wiring of channels, threads and streams; C13 IoThreads::join; C14 stdout purity;
C15 no panic caused by the peer; C16 no memory lost per message."""
from common import *
from rules_transport import Transport, transports, SPAWN, check_stream_options, READING, WRITING, check_thread_errors, wrong_cause

CHAN = re.compile(r"^crossbeam_channel::(bounded|unbounded)$")


def chan_of(g, v, half):
    """v is half (0 sender, 1 receiver) of the channel created by which call?"""
    if v[0] == "fld" and v[3] == half and v[1][0] == "res":
        for e in g.events("call"):
            if e[4] == v[1] and CHAN.search(e[1]):
                return v[1]
    return None


def handle_of(v):
    """The spawn call a join handle comes from (directly, or through thread::Builder)."""
    while v[0] == "fld" and v[2:] == (0, 0):
        v = v[1]
    return v if v[0] == "res" else None


def captured(cl):
    return subterms(cl[3]) if cl[0] == "a" else set()


def base_stream(v):
    """What a buffered stream ultimately is."""
    while v[0] == "app" and v[1] in ("BufReader", "BufWriter"):
        v = v[2][0]
    return v


def base_streams(v, clones, seen=()):
    """What a (cloned, buffered) stream may ultimately be."""
    v = base_stream(v)
    if v[0] == "fld" and v[2:] == (0, 0) and v[1] in clones and v not in seen:
        return {y for x in clones[v[1]] for y in base_streams(x, clones, seen + (v,))}
    return {v}


def check_wiring(chk):
    p = chk.P.server
    check_stream_options(chk, transports(chk), set(READING + WRITING))
    for t in transports(chk):
        n = "Connection::" + t.name
        g = t.g
        ctype, SI, RI = conn_fields(chk)
        iot = chk.adt(p, "IoThreads")
        HR, HW = chk.field_index(p, iot, "reader"), chk.field_index(p, iot, "writer")
        chk.ob(n + ": one reading and one writing thread", len(t.readers) == 1 and len(t.writers) == 1 and t.readers != t.writers,
               "reading %d, writing %d" % (len(t.readers), len(t.writers)))
        if len(t.readers) != 1 or len(t.writers) != 1:
            continue
        rd, wr = t.readers[0], t.writers[0]
        good = 0
        for e in g.events("ret"):
            v = e[1]
            outs = [(0, v)] if t.name == "stdio" else results(frozenset(), v)
            for var, pay in outs:
                if t.name != "stdio" and var == ERR:
                    continue
                if var is None or pay[0] != "a" or pay[1] != "tuple" or len(pay[3]) != 2:
                    chk.fail(n + ": cannot tell what is returned", pv(g.an, v))
                    continue
                c, io = pay[3]
                if c[0] != "a" or c[1] != ctype or io[0] != "a" or io[1] != iot:
                    chk.fail(n + ": cannot tell what is returned", pv(g.an, v))
                    continue
                snd, rcv = c[3][SI], c[3][RI]
                out_ch, in_ch = chan_of(g, snd, 0), chan_of(g, rcv, 1)
                chk.ob(n + ": sender and receiver belong to different channels", out_ch is not None and in_ch is not None and out_ch != in_ch,
                       "sender %s receiver %s" % (pv(g.an, snd), pv(g.an, rcv)))
                if out_ch is None or in_ch is None:
                    continue
                wcap, rcap = captured(wr.closure), captured(rd.closure)
                chk.ob(n + ": the writer thread takes what the connection sends", fld(out_ch, 0, 1) in wcap, "the writer does not hold the receiving end of the connection's sender")
                chk.ob(n + ": the reader thread feeds what the connection receives", fld(in_ch, 0, 0) in rcap, "the reader does not hold the sending end of the connection's receiver")
                chk.ob(n + ": no thread keeps the outgoing channel open", fld(out_ch, 0, 0) not in wcap and fld(out_ch, 0, 0) not in rcap,
                       "a thread holds a sender of the outgoing channel: the writer would never end")
                chk.ob(n + ": no thread takes incoming messages away", fld(in_ch, 0, 1) not in wcap and fld(in_ch, 0, 1) not in rcap, "a thread holds the receiving end of the incoming channel")
                hr, hw = handle_of(io[3][HR]), handle_of(io[3][HW])
                chk.ob(n + ": IoThreads.reader is the reading thread", hr == rd.handle, "it is %s" % pv(g.an, io[3][HR]))
                chk.ob(n + ": IoThreads.writer is the writing thread", hw == wr.handle, "it is %s" % pv(g.an, io[3][HW]))
                kept_elsewhere(chk, n, g, e, {fld(out_ch, 0, 0), fld(in_ch, 0, 1)}, {rd.handle, wr.handle})
                good += 1
        chk.ob(n + ": returns a connection", good > 0, "no path returns a connection")
        # receive end used by the writer loop, send end used by the reader loop
        for e in wr.graph.events("call"):
            if RECV.search(e[1]):
                chk.ob(n + ": the writer loop reads the connection's channel", any(e[3][0] == t.glob(x) for x in captured(wr.closure) if chan_of(g, x, 1)), "recv on %s" % pv(wr.graph.an, e[3][0]))
        # streams
        srcs = {base_stream(src_of(e)) for e in rd.graph.events("read")}
        sinks = {base_stream(e[1]) for e in wr.graph.events() if e[0] in ("write", "write_partial", "flush")}
        if t.name == "stdio":
            chk.ob(n + ": reads standard input", srcs == {("g", "std::io::stdin")}, "reads %s" % sorted(map(str, srcs)))
            chk.ob(n + ": writes standard output", sinks == {("g", "std::io::stdout")}, "writes %s" % sorted(map(str, sinks)))
        else:
            want = socket_terms(chk, t)
            got_r = {x for s in srcs for x in unglob_streams(t, s)}
            got_w = {x for s in sinks for x in unglob_streams(t, s)}
            chk.ob(n + ": reads the connected stream", got_r and got_r <= want, "reads %s" % sorted(pv(g.an, x) for x in got_r))
            chk.ob(n + ": writes the connected stream", got_w and got_w <= want, "writes %s" % sorted(pv(g.an, x) for x in got_w))
            chk.ob(n + ": reads and writes the same stream", got_r == got_w, "reads %s, writes %s" % (sorted(pv(g.an, x) for x in got_r), sorted(pv(g.an, x) for x in got_w)))
            check_setup(chk, t)
    # the in-memory pair
    k = chk.method_root(p, "Connection", "memory")
    g = chk.explore(p, k)
    ctype, SI, RI = conn_fields(chk)
    n = 0
    for e in g.events("ret"):
        v = e[1]
        ok_ = v[0] == "a" and len(v[3]) == 2 and all(x[0] == "a" and x[1] == ctype for x in v[3])
        if ok_:
            a, b = v[3]
            c1, c2 = chan_of(g, a[3][SI], 0), chan_of(g, b[3][SI], 0)
            ok_ = c1 is not None and c2 is not None and c1 != c2 and a[3][RI] == fld(c2, 0, 1) and b[3][RI] == fld(c1, 0, 1)
            for ee in g.events("call"):
                if CHAN.search(ee[1]):
                    chk.ob("Connection::memory: sending never blocks", ee[1].endswith("unbounded"), "the in-memory channels are bounded")
        chk.ob("Connection::memory: each side receives what the other sends", ok_, "returns %s" % pv(g.an, v))
        if ok_:
            kept_elsewhere(chk, "Connection::memory", g, e, {x for s in v[3] for x in (s[3][SI], s[3][RI])}, set())
        n += 1
    chk.floor("results of Connection::memory", n, 1)


def kept_elsewhere(chk, n, g, ret, ends, handles):
    """The ends a connection owns are owned by nothing that outlives it: a static, leaked memory, another thread."""
    bad = None
    for e in g.events():
        if e[0] == "leak" and subterms(e[2]) & ends:
            bad = "an end of its channels is never dropped: " + e[1]
        elif e[0] == "call" and any(subterms(x) & ends for x in e[3]):
            if any(x[0] == "g" and isinstance(x[1], str) and not x[1].startswith("const:") for x in e[3]):
                bad = "an end of its channels is put into a static by " + e[1]
            elif re.search(r"thread::(Builder::|Scope.*::)?spawn", e[1]) and e[4] not in handles and fld(e[4], 0, 0) not in handles:
                bad = "another thread holds an end of its channels"
    for loc, v in ret[3].items():
        if loc[0] == "S" and subterms(v) & ends:
            bad = "an end of its channels is stored where it outlives the connection"
    chk.ob(n + ": nothing else keeps the connection's ends of its channels", bad is None, bad or "")


def clone_map(g):
    m = {}
    for e in g.events("call"):
        if e[1].endswith("::try_clone"):
            m.setdefault(e[4], set()).add(e[3][0])
    return m


def src_of(e):
    s = e[2]
    if s[0] == "app" and s[1] == "take":
        s = s[2][0]
    return s


def unglob_streams(t, s):
    """What a thread's (globalized) stream may be in the constructor's terms."""
    got = set()
    for x in captured_streams(t):
        if t.glob(x) == s:
            got |= base_streams(x, clone_map(t.g))
    return got or {s}


def captured_streams(t):
    out = set()
    for th in t.threads.values():
        out |= captured(th.closure)
    # and what they were cloned from
    return out | {base_stream(x) for x in out}


CONNECT = re.compile(r"^std::net::TcpStream::connect(_timeout)?$")
BIND = re.compile(r"^std::net::TcpListener::bind$")
ACCEPT = re.compile(r"^std::net::TcpListener::accept$")
INCOMING = re.compile(r"^std::net::TcpListener::(incoming|into_incoming)$")
SETUP = re.compile(r"^std::net::Tcp(Stream|Listener)::|^std::thread::Builder::spawn$|^<std::net::(Into)?Incoming.*::next$|to_socket_addrs$")


def from_address(g):
    """Terms made from the address the caller gave."""
    got = {("arg", 0)}
    while True:
        n = len(got)
        for e in g.events("call"):
            if not SETUP.search(e[1]) or e[1].endswith("to_socket_addrs"):
                if any(contains(a, lambda x: x in got) for a in e[3]):
                    got.add(e[4])
        if len(got) == n:
            return got


def socket_terms(chk, t):
    """The streams the constructor may obtain from the network, at the caller's address."""
    own = from_address(t.g)
    at = lambda v: contains(v, lambda x: x in own)
    calls = list(t.g.events("call"))
    cand, listeners, iters = set(), set(), set()
    if t.name == "connect":
        for e in calls:
            if CONNECT.search(e[1]):
                chk.ob("Connection::connect: connects to the given address", at(e[3][0]), "connects to %s" % pv(t.g.an, e[3][0]))
                cand.add(ok(e[4]))
        return cand
    for e in calls:
        if BIND.search(e[1]):
            chk.ob("Connection::listen: listens at the given address", at(e[3][0]), "listens at %s" % pv(t.g.an, e[3][0]))
            listeners.add(ok(e[4]))
    for e in calls:
        if INCOMING.search(e[1]) and e[3][0] in listeners:
            iters.add(e[4])
    for e in calls:
        if ACCEPT.search(e[1]) and e[3][0] in listeners:
            cand.add(fld(ok(e[4]), 0, 0))
        if re.search(r"Incoming.*::next$", e[1]) and e[3][0] in iters:
            cand.add(ok(some(e[4])))
    return cand


def check_setup(chk, t):
    """A failed set-up call leads to an error, neither to a panic nor to a connection."""
    g = t.g
    n = "Connection::" + t.name
    what = {}
    for e in g.events("call"):
        if SETUP.search(e[1]) or SETUP.search(e[2]):
            what[e[4]] = e[1]
            what[some(e[4])] = e[1]
    chk.floor(n + ": set-up calls", len(what), 2)

    def step(q, e, fail):
        kn, lost = q
        if e[0] == "assume":
            kn = learn(kn, e)
            failed = [w for r, w in what.items() if possible(kn, r, 2) == {ERR} and not (w.endswith("next") and r[0] == "res")]
            return (kn, failed[0] if failed else lost)
        if e[0] == "panic":
            if lost:
                fail("panics when %s fails instead of returning the error" % lost.split("::")[-1], describe(g, e) or "")
            return None
        if e[0] == "ret":
            for v, pay in results(kn, e[1]):
                if v == OK and lost and not CONNECT.search(lost):
                    fail("returns a connection although %s failed" % lost.split("::")[-1], "")
            return None
        return (kn, lost)
    chk.simulate(g, (frozenset(), None), step, n)
    chk.ob(n + ": set-up failures are returned")


# ---- C13 ---------------------------------------------------------------------------------------
def check_join(chk):
    p = chk.P.server
    iot = chk.adt(p, "IoThreads")
    idx = {n: chk.field_index(p, iot, n) for n in ("reader", "writer")}
    k = chk.method_root(p, "IoThreads", "join")
    g = chk.explore(p, k)
    JOIN = re.compile(r"^std::thread::JoinHandle::<T>::join$")
    who = {fld(("arg", 0), 0, i): n for n, i in idx.items()}
    stats = {"ok": 0, "err": 0, "panic": 0}

    # q = frozenset of (thread, join result) , known facts
    def failed(kn, r):
        """Did this thread fail: True / False / None."""
        o = possible(kn, r, 2)
        if o == {1}:
            return True
        if o == {0}:
            i = possible(kn, ok(r), 2)
            return True if i == {1} else False if i == {0} else None
        return None

    def step(q, e, fail):
        joined, kn = q
        if e[0] == "assume":
            return (joined, learn(kn, e))
        if e[0] == "call" and JOIN.search(e[1]):
            w = who.get(e[3][0])
            if w is None:
                fail("joins something else", pv(g.an, e[3][0]))
                return q
            return (joined | {(w, e[4])}, kn)
        if e[0] == "ret":
            d = dict(joined)
            for w, r in joined:
                if possible(kn, r, 2) == {1}:
                    fail("the panic of the %s is not passed on" % w, "returns %s" % pv(g.an, e[1]))
            for v, pay in results(kn, e[1]):
                if v is None:
                    fail("cannot tell the result", pv(g.an, e[1]))
                    continue
                kn2 = kn | {(("discr", e[1]), "=", I(v))} if is_sym(e[1]) else kn
                if v == OK:
                    stats["ok"] += 1
                    for w in ("reader", "writer"):
                        if w not in d:
                            fail("returns Ok without joining the %s" % w, "")
                        elif failed(kn2, d[w]) is not False:
                            fail("returns Ok although the %s may have failed" % w, "")
                else:
                    stats["err"] += 1
                    if not any(failed(kn2, r) for r in d.values()):
                        fail("returns an error although no thread is known to have failed", "")
                    src = {err(ok(r)) for r in d.values()}
                    rr = [r for r in d.values() if possible(kn2, r, 2) == {0} and possible(kn2, ok(r), 2) == {1}]
                    if rr and not any(contains(pay, lambda y: y == err(ok(r))) for r in rr) and not any(possible(kn2, r, 2) == {1} for r in d.values()):
                        fail("returns an error that is not the thread's", pv(g.an, pay))
            return None
        if e[0] == "panic":
            stats["panic"] += 1
            if not any(possible(kn, r, 2) == {1} for _, r in joined):
                fail("panics although no thread panicked", describe(g, e) or "")
            return None
        return q
    chk.simulate(g, (frozenset(), frozenset()), step, "IoThreads::join")
    for a, b in (("ok", "returns Ok"), ("err", "reports a thread's error")):
        chk.ob("IoThreads::join: some path %s" % b, stats[a] > 0, "no path does")


# ---- C29 ---------------------------------------------------------------------------------------
def check_errors(chk):
    """What join and the constructors report is the error of the thread or of the set-up call that failed."""
    check_thread_errors(chk)
    p = chk.P.server
    g = chk.explore(p, chk.method_root(p, "IoThreads", "join"))
    own = lambda e: e[0] == "call" and e[1] == "std::thread::JoinHandle::<T>::join"
    caused(chk, p, g, "IoThreads::join", own, lambda r: ok(r))
    for t in transports(chk):
        if t.name != "stdio":
            setup = lambda e: e[0] == "call" and (SETUP.search(e[1]) or SETUP.search(e[2])) and not e[1].endswith("next")
            caused(chk, p, t.g, "Connection::" + t.name, setup, lambda r: r)


def caused(chk, p, g, name, own, inner):
    seen = []

    def step(q, e, fail):
        rs, kn = q
        if e[0] == "assume":
            return (rs, learn(kn, e))
        if own(e):
            return (rs | {inner(e[4])}, kn)
        if e[0] == "panic":
            return None
        if e[0] != "ret":
            return q
        for v, pay in results(kn, e[1]):
            if v != ERR or pay is None:
                continue
            kn2 = kn | {(("discr", e[1]), "=", I(v))} if is_sym(e[1]) else kn
            failed = [r for r in rs if possible(kn2, r, 2) == {ERR}]
            if not failed:
                continue                              # C12 and C13 ask for a cause
            seen.append(1)
            if all(wrong_cause(p, "io", r, pay) for r in failed):
                fail("replaces the error that happened", "ends with %s" % pv(g.an, pay))
        return None
    chk.simulate(g, (frozenset(), frozenset()), step, name)
    chk.ob(name + ": reports a failure", bool(seen), "no path does")


# ---- C14 ---------------------------------------------------------------------------------------
STDOUT = re.compile(r"^std::io::(stdio::)?(_print|stdout)$")
PROTOCOL_SINKS = re.compile(r"^std::io::_print$")


def check_stdout(chk):
    """Nothing but the writer thread of Connection::stdio touches standard output."""
    n = 0
    named = {}
    t = Transport(chk, "stdio")
    wr = {th.key for th in t.writers}
    for p in (chk.P.server, chk.P.types):
        for key in sorted(all_local(p)):
            f = p.fns[key]
            n += 1
            for b in f["blocks"]:
                tt = b["t"]
                for x in all_consts([b["s"], tt]):
                    if x.get("c") == "fn" and (x["callee"].get("rpath") or x["callee"].get("path")) in ("std::io::stdout", "std::io::_print"):
                        named.setdefault(f["path"], p)
                    if x.get("c") == "str" and STDOUT_PATH.search(str(x.get("v"))):
                        chk.fail("opens standard output by its path in " + f["path"], "%r is standard output" % x["v"])
                if tt["t"] != "call" or not tt["callee"]:
                    continue
                c = tt["callee"]
                path = c.get("rpath") or c.get("path") or ""
                if path == "std::io::_print":
                    chk.fail("prints to standard output in " + f["path"], "print!/println! corrupts the message stream of a server on standard output; at %s" % tt["span"])
                elif re.search(r"from_raw_fd|process::Command.*::(spawn|status)$", path):
                    chk.fail("bypasses std's standard output in " + f["path"], "%s may write the stream other messages are on; at %s" % (path, tt["span"]))
                elif path in ("std::io::stdout",) or path.startswith("std::io::Stdout"):
                    chk.cover["call_sites"].add(f["path"] + tt["span"])
    # every use of stdout is in the writer thread: other entry points never obtain it
    for th in t.threads.values():
        uses = any(base_stream(e[1]) == ("g", "std::io::stdout") for e in th.graph.events() if e[0] in ("write", "write_partial", "flush"))
        prints = [e for e in th.graph.events("print") if e[1] == "stdout"]
        chk.ob("%s thread of Connection::stdio does not print" % th.role, not prints, "prints to standard output")
        if th.key not in wr or any(e[0] == "read" for e in th.graph.events()):
            chk.ob("only the writer thread writes standard output", not uses, "the %s thread writes to it" % th.role)
    chk.ob("Connection::stdio itself writes nothing", not any(e[0] in ("write", "write_partial", "flush") for e in t.g.events()), "it writes before any message")
    got = stdout_functions(chk.P.server) | stdout_functions(chk.P.types) | set(named)
    reach = {chk.P.server.fns[k]["path"] for th in t.writers for k in th.graph.an.stats["inlined"] | {th.key}} | {chk.P.server.fns[t.root]["path"]} | {chk.P.server.fns[k]["path"] for k in t.g.an.stats["inlined"]}
    for f in sorted(got):
        chk.ob("standard output is obtained only by the writer of Connection::stdio: " + f, f in reach, "%s obtains standard output" % f)
    chk.ob("the writer obtains standard output", bool(got), "nobody writes standard output")
    chk.floor("functions scanned", n, 300)


STDOUT_PATH = re.compile(r"/dev/(stdout|fd/1|tty|console|pts/)|/proc/(self|thread-self|\d+)/fd/1\b")


def all_consts(x):
    if isinstance(x, dict):
        if "c" in x:
            yield x
        for v in x.values():
            yield from all_consts(v)
    elif isinstance(x, list):
        for v in x:
            yield from all_consts(v)


def all_local(p):
    """Functions written in this crate (roots), closures and nested items included."""
    return {k for k, f in p.fns.items() if f.get("local")} or set(p.roots)


def stdout_functions(p):
    out = set()
    for key in all_local(p):
        f = p.fns[key]
        for b in f["blocks"]:
            tt = b["t"]
            if tt["t"] == "call" and tt["callee"] and (tt["callee"].get("rpath") or tt["callee"].get("path")) == "std::io::stdout":
                out.add(f["path"])
    return out
