"""C15 no panic from the peer's input, C16 no leaks: effects on every path reachable from the peer."""
from codec import *
import rules_transport as rt

# library calls that are documented to panic and that the analysis does not model: which argument is the position
POSITION = {"split_off": 1, "drain": 1, "insert": 1, "remove": 1, "swap_remove": 1, "insert_str": 1, "replace_range": 1, "rotate_left": 1, "rotate_right": 1}
POSITION_RX = re.compile(r"(String|Vec::<.*>|VecDeque::<.*>|<impl \[T\]>)::(%s)(::<.*>)?$" % "|".join(POSITION))
COPY_RX = re.compile(r"<impl \[T\]>::(copy_from_slice|clone_from_slice|swap_with_slice)(::<.*>)?$")
PANICKY = re.compile(
    r"<impl \[T\]>::(chunks|chunks_mut|chunks_exact|windows|rchunks|swap|copy_within|select_nth_unstable)(::<.*>)?$|Iterator::step_by|RefCell::<T>::(borrow|borrow_mut|replace|swap)$"
    r"|Duration::from_secs_f|Duration::(mul_f|div_f)|<std::time::(Duration|Instant|SystemTime) as std::ops::|char::from_digit|<impl char>::(to_digit|from_digit)"
    r"|core::num::<impl [iu]\w+>::(pow|abs|ilog|ilog2|ilog10|div_euclid|rem_euclid|next_power_of_two|strict_\w+|from_str_radix)$"
    r"|hint::unreachable_unchecked|disable_recursion_limit|std::process::(exit|abort)|std::panic::(panic_any|resume_unwind)|std::io::_print|thread::park$")
UNCHECKED = re.compile(r"::(get_unchecked(_mut)?|unwrap_unchecked|unwrap_err_unchecked|unreachable_unchecked|from_u32_unchecked|as_bytes_mut|as_mut_vec|set_len|assume_init|transmute|from_raw_parts(_mut)?)(::<.*>)?$")
SERIAL = re.compile(r"^serde_json::to_(value|string|vec|string_pretty|vec_pretty|writer)")
LOCK = re.compile(r"(Mutex|RwLock|OnceLock|LazyLock)\b.*::(lock|read|write|into_inner|get_mut)$")
def later(path, args):
    """A point in time some fixed while from now (the clocks reach further than any such while)."""
    if not re.search(r"<std::time::(Instant|SystemTime) as std::ops::Add(Assign)?<std::time::Duration>>::", path) or len(args) < 2:
        return False
    now, d = args[0], args[1]
    if not re.search(r"(Instant|SystemTime)::now", repr(now)) and now[0] not in ("res", "old"):
        return False
    return d[0] == "app" and re.search(r"Duration::from_(secs|millis|micros|nanos|mins|hours)$", d[1]) is not None and d[2][0][0] == "i" and d[2][0][1] <= 1 << 32


AMOUNT_RX = re.compile(r"::(with_capacity(_in|_and_hasher)?|reserve|reserve_exact|repeat|repeat_n|resize_with|new_uninit_slice|set_len|make_contiguous)(::<.*>)?$")
COLLECT = re.compile(r"::(collect|extend|from_iter|collect_into|unzip|partition|join)(::<.*>)?$")
SIZE_OK = 1 << 24
FACTS = {"panic": 5, "maypanic": 4, "alloc": 4, "call": 8}      # where an event keeps the facts it happened under
NARROW = {"u8": 8, "u16": 16, "u32": 32, "i8": 7, "i16": 15, "i32": 31}


# ---- a small domain of linear inequalities over lengths and positions ------------------------------
class Linear:
    def __init__(self, facts):
        self.cons = []          # ({atom: coefficient}, constant): the sum is not negative
        self.seen = set()
        self.pending = []
        for t, f in facts.items():
            self.fact(t, f)

    def add(self, e, k=0):
        self.cons.append((e[0], e[1] + k))

    def le(self, a, b, k=0):
        """a + k <= b"""
        self.add(self.minus(self.lin(b), self.lin(a)), -k)

    @staticmethod
    def minus(x, y):
        d = dict(x[0])
        for t, c in y[0].items():
            d[t] = d.get(t, 0) - c
            if d[t] == 0:
                del d[t]
        return d, x[1] - y[1]

    def lin(self, t):
        k = t[0]
        if k == "i":
            return {}, t[1]
        if k == "bin" and t[1] in ("Add", "Sub", "AddUnchecked", "SubUnchecked"):
            a, b = self.lin(t[2]), self.lin(t[3])
            return self.minus(a, b if t[1].startswith("Sub") else self.minus(({}, 0), b))
        if k == "bin" and t[1] == "Mul" and (t[2][0] == "i" or t[3][0] == "i"):
            n, x = (t[2][1], t[3]) if t[2][0] == "i" else (t[3][1], t[2])
            d, c = self.lin(x)
            return {a: v * n for a, v in d.items() if v * n}, c * n
        if k == "app":
            n, a = t[1], t[2]
            if n.startswith("cast") and len(a) == 1:
                return self.lin(a[0])
            if n == "len":
                return self.len(a[0])
            if n == "find":
                self.atom(t)
                return {t: 1}, 0
            if re.search(r"(::|^)min(::<.*>)?$", n) and len(a) == 2:
                if t not in self.seen:
                    self.seen.add(t)
                    for x in a:
                        self.add(self.minus(self.lin(x), ({t: 1}, 0)))
                return {t: 1}, 0
            if re.search(r"::saturating_sub$", n) and len(a) == 2:
                if t not in self.seen:
                    self.seen.add(t)
                    self.add(({t: 1}, 0))
                    self.add(self.minus(self.lin(a[0]), ({t: 1}, 0)))
                return {t: 1}, 0
        return {t: 1}, 0

    def atom(self, t):
        """Facts that come with a length or a position."""
        if t in self.seen:
            return
        self.seen.add(t)
        self.add(({t: 1}, 0))
        if t[1] == "find":
            x, s = t[2]
            if s[0] == "s":
                n = len(s[1].encode())
                self.add(self.minus(self.minus(self.len(x), ({t: 1}, 0)), ({}, n)))

    def len(self, x):
        if x[0] == "s":
            return {}, len(x[1].encode())
        if x[0] == "a" and x[1] in ("array", "vec"):
            return {}, len(x[3])
        if x[0] == "app":
            if x[1] == "slice":
                v, lo, hi = x[2]
                return self.minus(self.len(v) if hi == ("g", "end") else self.lin(hi), self.lin(lo))
            if x[1] == "before":
                return self.lin(("app", "find", x[2]))
            if x[1] == "after" and x[2][1][0] == "s":
                return self.minus(self.minus(self.len(x[2][0]), self.lin(("app", "find", x[2]))), ({}, len(x[2][1][1].encode())))
            if x[1] in ("resize", "vecof", "filled") or x[1] == "repeat" and len(x[2]) > 1:
                return self.lin(x[2][1])
            if x[1] in ("setslice", "mixed"):
                return self.len(x[2][0])
        t = ("app", "len", (x,))
        self.atom(t)
        return {t: 1}, 0

    def fact(self, t, f):
        if f[0] == "=" and f[1][0] == "i":
            c = f[1][1]
            if t[0] == "app" and t[1] in ("ends_with", "starts_with", "contains") and c and t[2][1][0] == "s":
                self.add(self.minus(self.len(t[2][0]), ({}, len(t[2][1][1].encode()))))
                return
            if t[0] == "bin" and t[1] == "Lt":
                if c:
                    self.le(t[2], t[3], 1)
                else:
                    self.le(t[3], t[2])
                return
            if t[0] == "ovf" and t[1] == "Sub" and not c:
                self.le(t[3], t[2])
                return
            if t[0] == "eq" and c:
                self.le(t[1], t[2])
                self.le(t[2], t[1])
                return
            if t[0] == "discr":
                return
            self.le(t, f[1])
            self.le(f[1], t)
        elif f[0] == "!":
            n = 0
            while I(n) in f[1]:
                n += 1
            if n and t[0] == "app" and t[1] in ("len", "find"):
                self.le(I(n), t)

    def implies(self, a, b, k=0):
        """Do the facts imply a + k <= b?"""
        if b[0] == "app" and b[1].startswith("cast") and len(b[2]) == 1 and b[2][0][0] == "app":
            b = b[2][0]
        if b[0] == "app" and re.search(r"(::|^)min(::<.*>)?$", b[1]) and len(b[2]) == 2 and a != b:
            if all(self.implies(a, x, k) for x in b[2]):
                return True
        g = self.minus(self.lin(b), self.lin(a))
        g = (g[0], g[1] - k)
        cons = [({t: -c for t, c in g[0].items()}, -g[1] - 1)] + self.cons
        # keep what is connected to the goal
        live = set(g[0])
        use = [cons[0]]
        rest = cons[1:]
        while True:
            n = [c for c in rest if not c[0] or live & set(c[0])]
            if not n:
                break
            for c in n:
                live |= set(c[0])
                use.append(c)
            rest = [c for c in rest if c not in n]
        return infeasible(use)


def infeasible(cons):
    """Fourier-Motzkin elimination over the rationals, bounded."""
    cons = [(dict(c), k) for c, k in cons]
    while True:
        if any(not c and k < 0 for c, k in cons):
            return True
        atoms = {}
        for c, _ in cons:
            for t in c:
                atoms[t] = atoms.get(t, 0) + 1
        if not atoms:
            return False
        t = min(atoms, key=lambda x: (atoms[x], repr(x)))
        pos = [x for x in cons if x[0].get(t, 0) > 0]
        neg = [x for x in cons if x[0].get(t, 0) < 0]
        out = [x for x in cons if t not in x[0]]
        for c1, k1 in pos:
            for c2, k2 in neg:
                a, b = -c2[t], c1[t]
                d = {}
                for u in set(c1) | set(c2):
                    v = a * c1.get(u, 0) + b * c2.get(u, 0)
                    if v:
                        d[u] = v
                out.append((d, a * k1 + b * k2))
        if len(out) > 400:
            return False
        cons = out


def boundary(L, facts, base, pos):
    """Is the byte position pos a character boundary of the text base?"""
    if pos == I(0) or pos == ("g", "end") or L.minus(L.lin(pos), L.len(base)) == ({}, 0):
        return True
    p = L.lin(pos)
    if base[0] == "app" and base[1] == "slice" and base[2][2] == ("g", "end"):
        v, lo = base[2][0], base[2][1]
        return boundary(L, facts, v, ("bin", "Add", lo, pos)) if lo != I(0) else boundary(L, facts, v, pos)
    for t, f in facts.items():
        if t[0] != "app" or t[1] not in ("ends_with", "starts_with") or f != ("=", TRUE) or t[2][0] != base or t[2][1][0] != "s":
            continue
        s = t[2][1][1]
        for i in range(len(s) + 1):
            n = len(s[:i].encode())
            want = ({}, n) if t[1] == "starts_with" else L.minus(L.len(base), ({}, len(s.encode()) - n))
            if L.minus(p, want) == ({}, 0):
                return True
    for t in list(p[0]):
        if t[0] == "app" and t[1] == "find" and t[2][0] == base and t[2][1][0] == "s" and p[0] == {t: 1}:
            s = t[2][1][1]
            return any(p[1] == len(s[:i].encode()) for i in range(len(s) + 1))
    return False


def alts(v):
    return list(v[1]) if v[0] == "alt" else [v]


def numbers(t, out=None):
    """The run-time numbers in t that are not lengths of data at hand."""
    if out is None:
        out = set()
    k = t[0]
    if k in ("i", "s", "b", "eq", "not", "discr"):
        return out
    if k == "alt":
        for x in t[1]:
            numbers(x, out)
        return out
    if k == "bin":
        numbers(t[2], out)
        numbers(t[3], out)
        return out
    if k == "app":
        n = t[1]
        if n in ("len", "find") or re.search(r"::(len|capacity|count|size_hint|serialized_size|available_parallelism|checked_len)(::<.*>)?$", n):
            return out
        if n.startswith("cast:bool") or re.search(r"From<bool>( for [iu]\w+)?>::from$", n):
            return out
        if n.startswith("cast") or re.search(r"(::|^)(min|max|saturating_\w+|wrapping_\w+|next_multiple_of)(::<.*>)?$", n):
            xs = [numbers(x, set()) for x in t[2] if isinstance(x, tuple)]
            if re.search(r"(::|^)min(::<.*>)?$", n) and any(not x for x in xs):
                return out
            for x in xs:
                out |= x
            return out
    if k == "fld" and t[1][0] == "app" and re.search(r"::size_hint$", t[1][1]):
        return out
    out.add(t)
    return out


def endless(v, out):
    """How many elements are taken from iterators that never end, or counted off a range."""
    if isinstance(v, tuple):
        if len(v) > 2 and v[0] == "app" and isinstance(v[1], str) and re.search(r"Iterator::take(::<.*>)?$|iter::repeat_n(::<.*>)?$", v[1]) and len(v[2]) > 1:
            if "repeat_n" in v[1] or contains(v[2][0], lambda x: x[0] == "app" and isinstance(x[1], str) and re.search(r"iter::(repeat|repeat_with|from_fn|successors)\b|Iterator::cycle", x[1]) is not None):
                out.append(v[2][1])
        if len(v) > 3 and v[0] == "a" and isinstance(v[1], str) and re.search(r"ops::Range(Inclusive)?$", v[1]) and len(v[3]) > 1:
            out.append(v[3][1])
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                endless(x, out)
    elif isinstance(v, frozenset):
        for x in v:
            endless(x, out)
    return out


class Safety:
    """Collects and discharges the panics and input-sized allocations of one root."""

    def __init__(self, chk):
        self.chk = chk
        self.events = 0
        self.discharged = 0

    def scan(self, g, name):
        self.an = g.an
        self.g = g
        self.name = name
        self.again = []
        self.second = False
        for _, _, ev in g.edges:
            for e in ev:
                self.one(e)
        if self.again:
            self.second = True
            self.retry()
        self.chk.ob(name)

    def retry(self):
        """What the facts of a state alone do not discharge because it is about a value of an earlier round:
        follow the paths and use the conditions met since."""
        want = {id(e) for e in self.again}
        out = self.g.out()
        start = (self.g.start, frozenset())
        seen, work = {start}, [start]
        while work:
            n, q = work.pop()
            for m, ev in out.get(n, []):
                q2 = q
                for e in ev:
                    if e[0] == "age":
                        q2 = frozenset((absint.age_value(t, e[1], e[2]), op, c) for t, op, c in q2)
                        q2 = frozenset(f for f in q2 if not contains(f[0], lambda x: x == ("weak", e[1])))
                    elif e[0] == "assume" and absint.is_weak(e[1]):
                        q2 = q2 | {(e[1], e[2], e[3])}
                    elif id(e) in want:
                        i = FACTS[e[0]]
                        facts = dict(e[i])
                        for t, op, c in q2:
                            facts[t] = (op, c)
                        self.one(e[:i] + (facts,) + e[i + 1:])
                if m is not None and (m, q2) not in seen:
                    seen.add((m, q2))
                    work.append((m, q2))
            if len(seen) > 200000:
                raise Anchor("too many paths in " + self.name)

    def bad(self, e, key, msg):
        fn = loc(self.an, e[5] if e[0] == "call" else e[3]).rsplit(" (", 1)[0]
        fn = re.sub(r"::<[^>]*>", "", fn)
        self.chk.fail("%s: %s in %s" % (self.name, key, fn), "%s: %s" % (self.name, msg), [describe(self.g, e) or str(e[:3])])

    def settle(self, e, good, key, msg):
        if not good and not self.second and absint.is_weak(e[:FACTS[e[0]]]):
            self.again.append(e)
            return
        self.events += 1
        self.chk.cover["events"] += 1
        if good:
            self.discharged += 1
        else:
            self.bad(e, key, msg)

    def one(self, e):
        k = e[0]
        if k == "panic":
            if e[1] == "assert":
                return self.settle(e, self.assertion(e), "may fail the assertion %s" % self.assert_name(e), "an arithmetic or bounds check may fail: %s" % e[2])
            return self.settle(e, self.excused(e), "may panic (%s)" % e[1].split("::")[-1], "a panic is reachable: %s" % e[1])
        if k == "maypanic":
            ok_, why = self.position(e)
            return self.settle(e, ok_, "may panic on %s" % e[1], why)
        if k == "alloc":
            return self.settle(e, self.amount(e[2], e[4]), "allocates as much as a number in the input says", "%s with an amount taken from the input" % e[1])
        if k == "call":
            for path in (e[1], e[2]):
                m = POSITION_RX.search(path)
                if m:
                    return self.settle(e, self.call_position(e, m.group(2), POSITION[m.group(2)]), "may panic in %s" % m.group(2), "the position given to %s may be out of range" % path)
                if COPY_RX.search(path):
                    L = Linear(e[8])
                    a, b = ("app", "len", (e[3][0],)), ("app", "len", (e[3][1],))
                    return self.settle(e, L.implies(a, b) and L.implies(b, a), "may panic in a copy", "the lengths given to %s may differ" % path)
                if path.endswith("from_utf8_unchecked") and e[4][0] == "app" and e[4][1] == "unchecked_utf8":
                    return self.settle(e, False, "takes unchecked bytes for text", "%s on bytes that may be no UTF-8 is undefined behaviour" % path)
                if UNCHECKED.search(path):
                    return self.settle(e, False, "calls %s" % path.split("::")[-1], "%s is undefined behaviour unless something not checked here holds" % path)
                if PANICKY.search(path) and not later(path, e[3]):
                    return self.settle(e, False, "calls %s" % path.split("::")[-1], "%s may panic or end the process" % path)
            if COLLECT.search(e[1]) or COLLECT.search(e[2]):
                for n in endless(e[3], []):
                    self.settle(e, self.amount(n, e[8]), "allocates as much as a number in the input says", "%s gathers as many elements as a number taken from the input" % e[1])
            if e[1].endswith("fmt::rt::Argument::<'_>::from_usize"):
                self.settle(e, self.amount(e[3][0], e[8]), "allocates as much as a number in the input says", "pads a text to a width taken from the input (a width above 65535 is a panic)")
            m = AMOUNT_RX.search(e[1])
            if m and "set_len" not in e[1]:
                for a in e[3][0 if "with_capacity" in e[1] or "new_uninit" in e[1] else 1:]:
                    self.settle(e, self.amount(a, e[8]), "allocates as much as a number in the input says", "%s with an amount taken from the input" % e[1])

    def assert_name(self, e):
        m = re.match(r"(\w+)(?:\((\w+))?", e[2])
        return "%s %s" % (m.group(1), m.group(2) or "") if m else e[2]

    def assertion(self, e):
        msg, cond, facts, ty = e[2], e[4], e[5], e[6]
        if msg.startswith("ResumedAfter"):
            return True
        L = Linear(facts)
        if cond[0] == "not":
            cond = cond[1]
        if cond[0] == "ovf":
            op, a, b = cond[1], cond[2], cond[3]
            if op == "Sub":
                if ty.startswith("i"):
                    return ty not in NARROW and not numbers(a) and not numbers(b)
                return all(L.implies(y, x) for x in alts(a) for y in alts(b))
            ns = numbers(a) | numbers(b)
            if ty in NARROW:
                return self.bounded(L, ("bin", op, a, b), (1 << NARROW[ty]) - 1)
            if op in ("Add", "Mul"):
                return all(self.counter(x) or self.bounded(L, x, 1 << 31) for x in ns)
            return False
        if cond[0] == "bin" and cond[1] == "Lt":
            return all(L.implies(x, y, 1) for x in alts(cond[2]) for y in alts(cond[3]))
        if re.match(r"(DivisionByZero|RemainderByZero)", msg):
            c = cond[1] if cond[0] == "eq" else None
            return c is not None and L.implies(I(1), c)
        if cond[0] in ("top", "weak") or absint.is_weak(cond):
            # a number of the loop itself: what it grows by must not be the peer's
            m = re.match(r"Overflow\(Add", msg)
            xs = [x for x in (e[7] if len(e) > 7 else ()) if x[0] != "top"]
            return bool(m) and ty not in NARROW and bool(xs) and all(self.counter(y) for x in xs for y in numbers(x))
        return False

    def bounded(self, L, t, n):
        if t[0] == "bin" and t[1] == "Mul" and not (t[2][0] == "i" or t[3][0] == "i"):
            return False
        return L.implies(t, I(n))

    def counter(self, t):
        """A number the program itself counted up: it cannot overflow 64 bits."""
        return not contains(t, lambda x: x[0] == "app" and re.search(r"parse|from_str|from_|deserialize|next_value|as_u64|as_i64", x[1]) or x[0] in ("res", "out", "arg") or x[0] == "g" and str(x[1]).startswith("res"))

    def excused(self, e):
        args, facts = e[4], e[5]
        rs = {a[1] for a in args if isinstance(a, tuple) and a[0] == "fld" and a[2] == 1}
        def app_error(r):
            return r[0] == "app" and (SERIAL.search(r[1]) or LOCK.search(r[1]))
        if "panic_fmt" in e[1] and any(t[0] == "discr" and app_error(t[1]) and f == ("=", I(1)) for t, f in facts.items()):
            return True         # said in words: the same failure as unwrap would report
        if rs and all(app_error(r) for r in rs):
            return True
        if rs and all(r[0] in ("res", "out") and (LOCK.search(self.path_of(r)) or SERIAL.search(self.path_of(r))) for r in rs):
            return True
        # a panic that rethrows the panic of another thread is not a new one
        return False

    def path_of(self, r):
        if not hasattr(self, "_calls") or self._calls[0] is not self.g:
            d = {}
            for e in self.g.events("call"):
                d[e[4]] = e[1]
            self._calls = (self.g, d)
        while r[0] in ("old",):
            r = r[1]
        return self._calls[1].get(r, "")

    def position(self, e):
        kind = e[5] if len(e) > 5 else "other"
        facts = e[4]
        if e[1] == "index":
            base, ix = e[2]
            if kind == "json":
                return True, ""
            L = Linear(facts)
            if kind == "seq" and ix[0] != "a":
                ok_ = all(L.implies(x, ("app", "len", (b,)), 1) for x in alts(ix) for b in alts(base))
                return ok_, "an index may be out of bounds"
            return False, "indexing may fail"
        base, lo, hi = e[2]
        L = Linear(facts)
        for b in alts(base):
            n = ("app", "len", (b,))
            for l in alts(lo):
                for h in alts(hi):
                    h2 = n if h == ("g", "end") else h
                    if e[1] != "truncate":
                        if l != I(0) and not L.implies(l, h2) or not L.implies(h2, n):
                            return False, "a slice may be out of range"
                    if kind == "str" and not (boundary(L, facts, b, l) and boundary(L, facts, b, h)):
                        return False, "a text may be cut inside a character"
        return True, ""

    def call_position(self, e, what, i):
        a = e[3]
        if len(a) <= i:
            return False
        base, pos, facts = a[0], a[i], e[8]
        L = Linear(facts)
        isstr = "String" in e[1]
        lo = hi = pos
        if pos[0] == "a":
            n = pos[1]
            if n == "std::ops::RangeFull":
                return True
            if n == "std::ops::RangeTo":
                lo, hi = I(0), pos[3][0]
            elif n == "std::ops::RangeFrom":
                lo, hi = pos[3][0], ("g", "end")
            elif n == "std::ops::Range":
                lo, hi = pos[3]
            else:
                return False
        n = ("app", "len", (base,))
        h = n if hi == ("g", "end") else hi
        k = 1 if what in ("remove", "swap_remove") else 0
        if not ((lo == I(0) or L.implies(lo, h)) and L.implies(h, n, k)):
            return False
        return not isstr or boundary(L, facts, base, lo) and boundary(L, facts, base, hi)

    def amount(self, t, facts):
        for x in alts(t):
            for y in numbers(x):
                if y[0] in ("top", "undef"):
                    return False
                if not self.bounded(Linear(facts), y, SIZE_OK):
                    return False
        return True


# ---- the roots -----------------------------------------------------------------------------------
def impl_keys(p, traits):
    for im in p.impls:
        tr = im["trait"].split("<")[0].split("::")[-1]
        if tr not in traits:
            continue
        for it, up in sorted(im["items"].items()):
            for k in p._by_upath.get(up, []):
                if k in p.rootset and p.fns[k]["blocks"]:
                    yield tr, p.tys(im["self"]), it, k


def transports(chk):
    if not hasattr(chk, "_transports"):
        chk._transports = rt.transports(chk)
    return chk._transports


def peer_graphs(chk, formatting=True):
    """(name, graph) of everything the peer's input reaches."""
    ts = transports(chk)
    n = 0
    for role in ("reader", "writer"):
        for t, th in rt.distinct(ts, role):
            n += 1
            yield "%s thread of %s" % (role, t.name), th.graph
    for t in ts:
        for th in t.threads.values():
            if th.role == "other":
                yield "thread of %s" % t.name, th.graph
    chk.floor("transport threads", n, 4)
    p = chk.P.server
    for f in ("initialize", "handle_shutdown"):
        yield f, chk.explore(p, chk.method_root(p, "Connection", f), maxstates=160)
    decs = 0
    for p in (chk.P.server, chk.P.types):
        inside = set()
        for traits in (("Deserialize",), ("DeserializeSeed", "Visitor", "Drop") + (("Debug", "Display") if formatting else ())):
            for tr, ty, it, k in impl_keys(p, traits):
                if k in inside:
                    continue        # already followed from the decoder that uses it
                if tr == "Deserialize" and it == "deserialize":
                    decs += 1
                g = chk.explore(p, k, opaque=opaque_de, maxstates=200000, budget=2000000)
                if tr == "Deserialize":
                    inside |= g.an.stats["inlined"]
                yield "%s of %s" % ({"Deserialize": "decoder", "Debug": "formatting", "Display": "formatting"}.get(tr, tr), ty.split("::")[-1]), g
        seen = set()
        des = {ty for tr, ty, it, k in impl_keys(p, ("Deserialize",))}
        for k in sorted(p.rootset):
            f = p.fns[k]
            if f.get("trait") or f["closure"] or not f["local"] or f["argc"] < 1 or f.get("self") is None:
                continue
            if p.tys(f["self"]) in des and p.tys(p.peel(f["locals"][1])) == p.tys(f["self"]) and k not in seen:
                seen.add(k)
                try:
                    g = chk.explore(p, k, maxstates=160)
                except Anchor:
                    continue
                yield "method %s of %s" % (f["path"].split("::")[-1], p.tys(f["self"]).split("::")[-1]), g
        chk.floor("methods of decoded values", len(seen), 3)
    chk.floor("decoders", decs, 50)


class Calls:
    """The call graph of the peer-facing functions of one program, by syntax (every call site, feasible or not)."""

    def __init__(self, p, roots):
        self.p = p
        self.edges, self.takes, self.channel = {}, set(), set()
        seen, work = set(roots), list(roots)
        while work:
            k = work.pop()
            out = self.edges.setdefault(k, set())
            for b in p.fns[k]["blocks"]:
                for s in b["s"]:
                    out.update(closure_keys(s))
                t = b["t"]
                if t["t"] != "call" or not t["callee"]:
                    continue
                c = t["callee"]
                paths = (c.get("rpath") or "", c.get("path") or "")
                out.update(closure_keys(t["args"]))
                if any(RECV.search(x) or SEND.search(x) for x in paths):
                    self.channel.add(k)
                if any(RECV.search(x) or re.search(r"std::io::(Read|BufRead)>?::", x) for x in paths):
                    self.takes.add(k)
                if c.get("key"):
                    out.add(c["key"])
            for o in out:
                if o in p.fns and o not in seen:
                    seen.add(o)
                    work.append(o)
        self.seen = seen

    def reach(self, k):
        s, w = set(), [k]
        while w:
            for o in self.edges.get(w.pop(), ()):
                if o not in s:
                    s.add(o)
                    w.append(o)
        return s

    def local(self):
        return sorted(k for k in self.seen if self.p.fns[k]["local"])


def live_roots(chk):
    """Bodies that run as long as the connection does."""
    p = chk.P.server
    roots = set()
    for t in transports(chk):
        roots |= {th.key for th in t.threads.values()}
    for f in ("initialize", "handle_shutdown"):
        roots.add(chk.method_root(p, "Connection", f))
    return roots


def recursion(chk):
    """A cycle of calls that takes input on every round: its depth is the peer's to choose."""
    p = chk.P.server
    cg = Calls(p, live_roots(chk))
    n = 0
    for k in cg.local():
        n += 1
        r = cg.reach(k)
        chk.ob("recursion " + k, not (k in r and r & cg.takes), "%s calls itself and takes input each time: the depth of the stack is the peer's to choose" % p.fns[k]["path"],
               key="recursion on input in %s" % p.fns[k]["path"])
    chk.floor("functions searched for recursion", n, 8)


def closure_keys(s):
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("c") == "closure" and x.get("key"):
                out.append(x["key"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            if len(x) >= 3 and x[0] == "closure" and isinstance(x[2], str):
                out.append(x[2])
            for v in x:
                walk(v)
    walk(s)
    return out


def check_panics(chk):
    sf = Safety(chk)
    for name, g in peer_graphs(chk):
        sf.scan(g, name)
    recursion(chk)
    chk.samples = ["%d potential panics and allocations, %d discharged" % (sf.events, sf.discharged)] + sorted(chk.obl)[:11]


# ---- C16 -----------------------------------------------------------------------------------------
GROW = re.compile(r"(Vec|VecDeque|String|HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap|LinkedList|IndexMap|PathBuf)\b.*::"
                  r"(push|push_back|push_front|push_str|insert|insert_str|extend|extend_from_slice|extend_from_within|append|entry|resize|resize_with|write_str|write_fmt|write_all)(::<.*>)?$")
FILL = re.compile(r"std::io::(Read|BufRead)>?::(read_line|read_until|read_to_end|read_to_string)(::<.*>)?$")
SHRINK = re.compile(r"::(clear|truncate|drain|split_off|take|replace|swap|pop|pop_front|pop_back|remove|swap_remove|retain|shift_remove|pop_first|pop_last|into_iter|dedup|remove_entry)(::<.*>)?$")
MUTABLE = re.compile(r"Mutex<|RwLock<|RefCell<|\bCell<|UnsafeCell<|DashMap<|SegQueue<|ArrayQueue<|\*mut ")
COLLECTION = re.compile(r"(std::vec::Vec|std::collections::\w+(?:::\w+)*|std::string::String|alloc::\w+::\w+|indexmap::\w+(?:::\w+)*)<")


class Retained:
    """Data that outlives a message: static collections, collections that grow in the loop over messages."""

    def __init__(self, chk, p, roots, live):
        self.chk, self.p = chk, p
        self.cg = Calls(p, roots)
        self.live = Calls(p, live) if live else None
        self.n = 0

    def calls(self, k):
        for i, b in enumerate(self.p.fns[k]["blocks"]):
            t = b["t"]
            if t["t"] == "call" and t["callee"] and not b["u"]:
                c = t["callee"]
                yield i, t, c.get("rpath") or c.get("path") or "", c.get("path") or ""

    def statics(self):
        """Statics and thread-locals that hold a growing collection."""
        found, grown, shrunk = {}, set(), set()
        for k in self.cg.local():
            self.n += 1
            f = self.p.fns[k]
            for b in f["blocks"]:
                if b["u"]:
                    continue
                for x in consts([b["s"], b["t"].get("args")]):
                    if x.get("c") not in ("static", "opaque") and not x.get("ty"):
                        continue
                    ty = self.p.tys(x["ty"]) if isinstance(x.get("ty"), int) else ""
                    if (x.get("c") == "static" or "LocalKey<" in ty or "LazyLock<" in ty) and MUTABLE.search(ty):
                        found.setdefault(ty, f["path"])
            for i, t, path, tpath in self.calls(k):
                if not t["atys"]:
                    continue
                rt_ = self.p.tys(self.p.peel(t["atys"][0]))
                if GROW.search(path) or GROW.search(tpath) or re.search(r"Extend>?::extend|Write>?::write", tpath):
                    grown.add(rt_)
                elif SHRINK.search(path):
                    shrunk.add(rt_)
        for ty, fn in sorted(found.items()):
            inner = [g for g in grown - shrunk if g in ty and (COLLECTION.match(g) or g == "std::string::String")]
            self.chk.ob("static of type %s" % ty, not inner, "%s keeps what it adds to a static collection (%s)" % (fn, ty), key="grows a static collection used in %s" % fn)

    # -- collections that live longer than one round of the loop over messages
    def origin(self, f, place, d=0):
        """(local or ("arg", i)) a mutable reference leads to."""
        l, proj = place[0], place[1]
        if d > 12:
            return None
        if not proj or proj[0][0] != "d":
            if not proj and l in f["_refs"]:
                src = f["_refs"][l]
                return self.origin(f, src, d + 1) if src is not None else None
            return ("arg", l) if 1 <= l <= f["argc"] and self.byref(f, l) else ("local", l)
        if l in f["_refs"] and f["_refs"][l] is not None:
            return self.origin(f, f["_refs"][l], d + 1)
        return ("arg", l) if 1 <= l <= f["argc"] else ("local", l)

    def byref(self, f, l):
        return self.p.types[f["locals"][l]]["k"] in ("ref", "ptr")

    def prepare(self, f):
        if "_refs" in f:
            return
        refs = {}
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and not s[1][1]:
                    r = s[2]
                    src = None
                    if r[0] == "ref":
                        src = r[2]
                    elif r[0] == "use" and "p" in r[1] and self.p.types[f["locals"][s[1][0]]]["k"] in ("ref", "ptr"):
                        src = r[1]["p"]
                    elif r[0] == "cast" and "p" in r[2]:
                        src = r[2]["p"]
                    if src is not None:
                        refs[s[1][0]] = None if s[1][0] in refs and refs[s[1][0]] != src else src
            t = b["t"]
            # a lock guard or a dereference leads back to what it guards
            if t["t"] == "call" and t["callee"] and not t["dest"][1] and t["args"] and "p" in t["args"][0]:
                if re.search(r"(DerefMut>?::deref_mut|Deref>?::deref|AsMut>?::as_mut|BorrowMut>?::borrow_mut|Option.*::(as_mut|unwrap|get_or_insert\w*)|by_ref)(::<.*>)?$", t["callee"].get("rpath") or t["callee"].get("path") or ""):
                    refs.setdefault(t["dest"][0], t["args"][0]["p"])
        f["_refs"] = refs

    def touches(self, k, seen=()):
        """({params grown}, {params emptied}) through references, of one function."""
        f = self.p.fns[k]
        if "_touch" in f:
            return f["_touch"]
        if k in seen:
            return set(), set()
        self.prepare(f)
        grow, shrink = set(), set()
        for i, o in self.effects(k, seen + (k,)):
            for x in i:
                if x[0] == "arg":
                    grow.add(x[1] - 1)
            for x in o:
                if x[0] == "arg":
                    shrink.add(x[1] - 1)
        f["_touch"] = grow, shrink
        return f["_touch"]

    def effects(self, k, seen=(), blocks=None):
        """Per call: ({origins grown}, {origins emptied})."""
        f = self.p.fns[k]
        self.prepare(f)
        for i, t, path, tpath in self.calls(k):
            if blocks is not None and i not in blocks:
                continue
            a = [self.origin(f, x["p"]) if "p" in x else None for x in t["args"]]
            g, s = set(), set()
            if GROW.search(path) or GROW.search(tpath) or re.search(r"Extend>?::extend", tpath):
                if a and a[0] and self.collection(t["atys"][0]):
                    g.add(a[0])
            elif FILL.search(path) or FILL.search(tpath):
                if a and a[-1]:
                    g.add(a[-1])
            elif SHRINK.search(path) or SHRINK.search(tpath):
                s |= {x for x in a if x}
            else:
                c = t["callee"].get("key")
                if c in self.p.fns and self.p.fns[c]["local"]:
                    gg, ss = self.touches(c, seen)
                    g |= {a[j] for j in gg if j < len(a) and a[j]}
                    s |= {a[j] for j in ss if j < len(a) and a[j]}
                for j, ty in enumerate(t["atys"]):      # closures handed over: what they capture by reference
                    for cl, caps in self.closures_of(f, t["args"][j]):
                        gg, ss = self.captured(cl)
                        g |= {self.origin(f, caps[x]) or ("local", caps[x][0]) for x in gg if x < len(caps) and caps[x]}
                        s |= {self.origin(f, caps[x]) or ("local", caps[x][0]) for x in ss if x < len(caps) and caps[x]}
            if g or s:
                yield g, s

    def collection(self, ty):
        s = self.p.tys(self.p.peel(ty))
        return bool(COLLECTION.match(s) or s == "std::string::String")

    def closures_of(self, f, arg):
        """Closures (key, captured places) a call argument may be."""
        if "p" not in arg or arg["p"][1]:
            return
        l = arg["p"][0]
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[1][0] == l and not s[1][1] and s[2][0] == "agg" and s[2][1][0] == "closure" and s[2][1][2] in self.p.fns:
                    yield s[2][1][2], [o.get("p") for o in s[2][2]]

    def captured(self, k):
        """({captures grown}, {captures emptied}) by a closure body."""
        f = self.p.fns[k]
        self.prepare(f)
        grow, shrink = set(), set()
        for i, t, path, tpath in self.calls(k):
            if not t["args"] or "p" not in t["args"][0]:
                continue
            up = self.upvar(f, t["args"][0]["p"])
            if up is None:
                continue
            if (GROW.search(path) or GROW.search(tpath) or re.search(r"Extend>?::extend", tpath)) and self.collection(t["atys"][0]):
                grow.add(up)
            elif SHRINK.search(path):
                shrink.add(up)
        return grow, shrink

    def upvar(self, f, place, d=0):
        l, proj = place[0], place[1]
        if d > 12:
            return None
        if l == 1:
            for e in proj:
                if e[0] == "f":
                    return e[1]
            return None
        src = f["_refs"].get(l)
        return self.upvar(f, src, d + 1) if src is not None else None

    def loops(self):
        if self.live is None:
            return
        chans = {k for k in self.live.seen if k in self.live.channel or self.live.reach(k) & self.live.channel}
        nl = 0
        for k in self.live.local():
            f = self.p.fns[k]
            self.prepare(f)
            for comp in sccs(f):
                if not self.has_channel(k, comp, chans):
                    continue
                nl += 1
                self.judge(k, f, comp)
            # a loop inside the library: for_each over the channel
            for i, t, path, tpath in self.calls(k):
                if any("crossbeam_channel::" in self.p.tys(ty) and re.search(r"IntoIter|Iter\b|TryIter", self.p.tys(ty)) for ty in t["atys"][:1]):
                    for a in t["args"][1:]:
                        for cl, caps in self.closures_of(f, a):
                            nl += 1
                            g, s = self.captured(cl)
                            for x in sorted(g - s):
                                self.chk.fail("a collection grows with every message in %s" % f["path"], "captured by the closure %s and never emptied" % self.p.fns[cl]["path"])
        self.chk.floor("loops over messages", nl, 3)

    def has_channel(self, k, comp, chans):
        for i, t, path, tpath in self.calls(k):
            if i in comp:
                if RECV.search(path) or SEND.search(path) or RECV.search(tpath) or SEND.search(tpath) or t["callee"].get("key") in chans:
                    return True
        return False

    def judge(self, k, f, comp):
        grown, emptied = set(), set()
        for g, s in self.effects(k, (), comp):
            grown |= g
            emptied |= s
        for i in comp:
            for s in f["blocks"][i]["s"]:
                if s[0] == "x":
                    emptied.add(("local", s[1]))
                elif s[0] == "=" and not s[1][1]:
                    emptied.add(("local", s[1][0]))
            t = f["blocks"][i]["t"]
            if t["t"] == "call" and not t["dest"][1]:
                emptied.add(("local", t["dest"][0]))
            if t["t"] == "drop" and not t["place"][1]:
                emptied.add(("local", t["place"][0]))
        for i, t, path, tpath in self.calls(k):
            if i in comp and re.search(r"thread::(Builder::|Scope.*::)?spawn", path) and t["args"]:
                for cl, _ in self.closures_of(f, t["args"][-1]):
                    why = self.lasting(cl)
                    self.chk.ob("thread started in %s" % f["path"], why is None, "each message starts a thread that %s" % why, key="starts a lasting thread with every message in %s" % f["path"])
        bad = grown - emptied
        self.chk.ob("loop in %s" % f["path"], not bad, "what is added in the loop over messages is never removed", key="a collection grows with every message in %s" % f["path"])


    def lasting(self, k):
        """Why a thread with this body may stay around, if so."""
        for x in sorted({k} | {o for o in self.live.reach(k) if o in self.p.fns and self.p.fns[o]["local"]}):
            if not any(b["t"]["t"] == "return" for b in self.p.fns[x]["blocks"] if not b["u"]):
                return "never ends"
            for i, t, path, tpath in self.calls(x):
                if re.search(r"thread::park$|Receiver::<T>::recv$|Condvar::wait(_while)?$|Barrier::wait$|JoinHandle::<T>::join$|Listener::accept$", path):
                    return "waits in %s" % path
        return None


def sccs(f):
    """The loops of a function: strongly connected sets of blocks (cleanup left out)."""
    succ = {}
    for i, b in enumerate(f["blocks"]):
        t = b["t"]
        s = []
        if not b["u"]:
            for key in ("to", "else"):
                if isinstance(t.get(key), int):
                    s.append(t[key])
            s += [a[1] for a in t.get("arms", [])]
        succ[i] = s

    def reach(a):
        seen, w = set(), [a]
        while w:
            for y in succ[w.pop()]:
                if y not in seen:
                    seen.add(y)
                    w.append(y)
        return seen
    r = {a: reach(a) for a in succ}
    done = set()
    for a in succ:
        if a in r[a] and a not in done:
            c = {b for b in r[a] if a in r[b]}
            done |= c
            yield c


def consts(x):
    if isinstance(x, dict):
        if "c" in x:
            yield x
        for v in x.values():
            yield from consts(v)
    elif isinstance(x, list):
        for v in x:
            yield from consts(v)


LEAK = re.compile(r"(Box|Vec|String)\b.*::leak(::<.*>)?$|(Box|Arc|Rc|Weak|CString)\b.*::into_raw$|std::mem::forget|ManuallyDrop::<T>::new$")


class Leaks:
    """Deliberate leaks along the paths of one root: what is leaked and what comes of it."""

    def __init__(self, chk):
        self.chk = chk
        self.covered = set()

    def scan(self, g, name):
        an = g.an
        p = an.p
        self.covered |= an.stats["inlined"] | {g.key}

        def local(e):
            cs = an.fidl[e[3]]
            fn = p.fns.get(cs[-1][0]) if cs else None
            return bool(fn and fn["local"])

        def step(q, e, fail):
            if e[0] == "age":
                return q
            if e[0] == "leak" and local(e):
                return q + ((re.sub(r"::<.*?>", "", e[1]).split("::", 1)[-1], e[2]),)
            if e[0] == "panic":
                return None
            if e[0] == "ret":
                for x in sorted(set(q), key=repr):
                    self.judge(an, name, x, q.count(x), e[1], fail)
                return None
            if len(q) > 6:
                return None
            return q
        self.chk.simulate(g, (), step, name)
        self.chk.ob(name)

    def judge(self, an, name, x, n, v, fail):
        how, val = x
        what = None
        r = v
        if v[0] == "a" and v[1] == RESULT:
            if v[2] == ERR:
                what = "and fails"
            else:
                r = v[3][0]
        if what is None:
            if r[0] == "a" and isinstance(r[1], str) and r[1] in an.p.adts:
                a = an.p.adts[r[1]]
                vn = a["variants"][r[2]]["name"]
                field = next((i for i, y in enumerate(r[3]) if y == val), None)
                if field is not None and n == 1:
                    ty = an.p.tys(a["variants"][r[2]]["fields"][field]["ty"])
                    fail("leaks the %s of %s" % ("method" if "str" in ty else "field %d" % field, vn), how + ": each such value leaks memory that is never given back")
                    return
                what = "and returns %s" % vn
            else:
                what = "and goes on"
        fail("leaks a value with %s %s%s" % (how, what, "" if n == 1 else ", more than once"), "memory is given up and never freed")


def check_leaks(chk):
    lk = Leaks(chk)
    for name, g in peer_graphs(chk, formatting=False):
        lk.scan(g, name)
    live = live_roots(chk)
    nl = 0
    # a generic function whose paths were followed is not looked at again for each type it is used with
    followed = {(p.fns[k]["crate"], p.fns[k]["upath"]) for p in (chk.P.server, chk.P.types) for k in lk.covered if k in p.fns}
    for p in (chk.P.server, chk.P.types):
        roots = {k for _, _, _, k in impl_keys(p, ("Deserialize", "Serialize", "Visitor", "DeserializeSeed"))}
        if p is chk.P.server:
            roots |= live | {chk.method_root(p, "Connection", m) for m in ("send", "try_send", "send_timeout", "send_deadline")}
        r = Retained(chk, p, roots, live if p is chk.P.server else None)
        r.statics()
        for k in r.cg.local():
            if k not in lk.covered and (p.fns[k]["crate"], p.fns[k]["upath"]) not in followed:
                for i, t, path, tpath in r.calls(k):
                    chk.ob("%s does not leak" % p.fns[k]["path"], not LEAK.search(path), "%s at %s" % (path, t["span"]), key="leaks in %s" % p.fns[k]["path"])
        r.loops()
        nl += r.n
    chk.floor("functions searched for retained data", nl, 300)


# ---- C38 what the application does never panics ----------------------------------------------------------
PEER = {"Deserialize", "DeserializeSeed", "Visitor"}


def offered(p):
    """(key, what) of the functions an application can call: public ones, and those of the traits the types implement."""
    for k in sorted(p.rootset):
        f = p.fns[k]
        if not f["local"] or f["closure"] or not f["blocks"]:
            continue
        tr = f.get("trait")
        tr = tr.split("<")[0].split("::")[-1] if tr else None
        if tr in PEER or tr is None and not f.get("pub"):
            continue
        yield k, f, tr


class Own(Safety):
    """Panics only: how much memory a number of its own takes is the application's choice."""

    def amount(self, t, facts):
        return True

    def excused(self, e):
        # a panic of a thread that was joined, passed on
        if e[4] and all(a[0] != "fld" or a[2] != 1 or re.search(r"thread::Builder::spawn(_scoped)?$", self.path_of(a[1])) for a in e[4]) and any(a[0] == "fld" for a in e[4]):
            return True         # as thread::spawn, which panics if the system has no thread left
        if re.search(r"panic_any|resume_unwind", e[1]) and e[4] and e[4][0][0] == "fld" and e[4][0][2] == 1 and re.search(r"JoinHandle.*::join$", self.path_of(e[4][0][1])):
            return True
        return super().excused(e)


TEXTS = {("s", "build/exit"), ("s", "build/initialized")}


def other_texts(chk, g, name):
    """Notification::from knows two texts; it may panic on others only."""
    def step(q, e, fail):
        if e[0] == "assume":
            return learn(q, e)
        if e[0] in ("panic", "maypanic"):
            out = set()
            for f in q:
                if f[0] == ARG0:
                    out |= (TEXTS - {f[2]}) if f[1] == "=" else set(f[2])
            for t in sorted(TEXTS - out):
                fail("may panic on %s" % t[1], "this is one of the two texts it is for")
            return None
        return None if e[0] == "ret" else q
    chk.simulate(g, frozenset(), step, name)


def own_refusals(chk, g, name):
    """An encoder's error is the output's, or that of the encoder of a part."""
    outcome = {e[4] for e in g.events("call") if SER.search(e[2]) or SER.search(e[1]) or OBJ.search(e[2]) or OBJ.search(e[1]) or SERT.search(e[2])}

    def step(q, e, fail):
        if e[0] == "assume":
            return q if absint.is_weak(e[1]) else learn(q, e)
        if e[0] == "ret":
            for v, pay in results(q, e[1]):
                r = e[1]
                while r[0] == "old":
                    r = r[1]
                cause = r in outcome or contains(pay, lambda x: x[0] == "fld" and x[2:] == (1, 0) and (x[1] in outcome or x[1][0] == "app" and bool(SERIAL.search(str(x[1][1])))))
                if v == ERR and not cause:
                    fail("refuses a value", pv(g.an, e[1]))
            return None
        return None if e[0] == "panic" else q
    chk.simulate(g, frozenset(), step, name)
    chk.ob(name + ": fails only with its output")


def check_total(chk):
    own = Own(chk)
    n = enc = 0
    for p in (chk.P.server, chk.P.types):
        for k, f, tr in offered(p):
            n += 1
            name = re.sub(r"::<[^>]*>", "", f["path"])
            g = chk.explore(p, k, opaque=opaque_ser if tr == "Serialize" else None, maxstates=200000, budget=2000000)
            if tr == "From" and p.tys(f["locals"][0]).endswith("Notification") and p.tys(p.peel(f["locals"][1])) == "str":
                other_texts(chk, g, name)
                continue
            own.scan(g, name)
            chk.ob(name + ": returns", any(e[0] in ("ret", "panic", "maypanic") for e in g.events()), "no path does")
            if tr == "Serialize" and f["path"].endswith("::serialize"):
                enc += 1
                own_refusals(chk, g, name)
    chk.floor("functions and trait implementations offered", n, 450)
    chk.floor("encoders", enc, 45)
    chk.samples = ["%d potential panics, %d discharged" % (own.events, own.discharged)] + sorted(chk.obl)[:11]
