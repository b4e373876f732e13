"""Interprocedural, path-sensitive dataflow over the MIR facts.

A fixpoint analysis: abstract states (value provenance of every live memory cell, plus what the
branches taken imply) are propagated over the interprocedural control-flow graph of a root
function; states that agree at a program point are merged, and beyond a bound they are joined.
The result is a finite graph whose edges carry the observable events (calls that leave the
analysed program, branch assumptions, returns, panics); properties are automata over that graph.
No path is handed to a solver and nothing is executed.
"""
import re
import sys
sys.setrecursionlimit(20000)

TOP = ("top",)
UNDEF = ("undef",)
UNIT = ("a", "tuple", 0, ())
TRUE = ("i", 1)
FALSE = ("i", 0)
MAXDEPTH = 36


def I(n):
    return ("i", int(n))


def S(s):
    return ("s", s)


def is_sym(v):
    return v[0] in ("arg", "fld", "app", "res", "out", "old", "weak", "idx", "discr", "bin", "not", "eq", "g", "ovf", "new")


class Program:
    def __init__(self, facts):
        self.j = facts
        self.crate = facts["crate"]
        self.types = facts["types"]
        self.adts = facts["adts"]
        self.fns = facts["fns"]
        self.roots = facts["roots"]
        self.impls = facts["impls"]
        self._live = {}
        self._by_upath = {}
        for k, f in self.fns.items():
            self._by_upath.setdefault(f["upath"], []).append(k)

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]["s"]

    def peel(self, i):
        """Type behind references, boxes."""
        while True:
            t = self.types[i]
            if t["k"] in ("ref", "ptr"):
                i = t["to"]
            elif t["k"] == "adt" and t["path"] in ("std::boxed::Box",):
                i = t["args"][0]
            else:
                return i

    def own(self, key):
        """Is this a function of the analysed crates?"""
        fn = self.fns.get(key) if key else None
        return fn is not None and fn["crate"] in ("bsp_server", "bsp_types")

    def adt_of(self, i):
        t = self.types[self.peel(i)]
        return t.get("path") if t["k"] == "adt" else None

    def variant(self, adt, name):
        for n, v in enumerate(self.adts[adt]["variants"]):
            if v["name"] == name:
                return n
        return None

    def vname(self, adt, idx):
        return self.adts[adt]["variants"][idx]["name"]

    def discr(self, adt, idx):
        a = self.adts.get(adt)
        if not a:
            return idx
        return a["variants"][idx]["discr"]

    def find(self, pred):
        return [k for k in self.roots if pred(self.fns[k])]

    # ---- liveness of locals (per function) -----------------------------------------------
    def live(self, key):
        r = self._live.get(key)
        if r is None:
            r = self._live[key] = compute_live(self.fns[key], self)
        return r

    # ---- destructors written in the program ----------------------------------------------
    def destructors(self):
        """adt path -> key of the body of its Drop::drop."""
        d = self.__dict__.get("_dtors")
        if d is None:
            d = self._dtors = {}
            for im in self.impls:
                if im["trait"] == "std::ops::Drop" and self.types[im["self"]]["k"] == "adt":
                    for k in self._by_upath.get(im["items"].get("drop"), []):
                        if self.fns[k]["local"]:
                            d[self.types[im["self"]]["path"]] = k
            self._needs = {}
        return d

    def drops_own(self, ty):
        """May dropping a value of this type run a destructor of the program?"""
        d = self.destructors()
        if not d or ty is None:
            return False
        r = self._needs.get(ty)
        if r is not None:
            return r
        self._needs[ty] = False
        t = self.types[ty]
        k = t["k"]
        r = False
        if k in ("adt", "tuple", "closure"):
            r = t.get("path") in d or any(self.drops_own(a) for a in t.get("args") or [] if isinstance(a, int))
            a = self.adts.get(t.get("path")) if k == "adt" and not r else None
            if a and a.get("local"):
                r = any(self.drops_own(f["ty"]) for v in a["variants"] for f in v["fields"])
        elif k in ("array", "slice"):
            r = self.drops_own(t["of"])
        self._needs[ty] = r
        return r

    def to_destroy(self, v, out):
        """The destructors dropping v runs, in order: (key, value)."""
        d = self.destructors()
        if not isinstance(v, tuple) or not v or v[0] != "a":
            return out
        if isinstance(v[1], str) and v[1] in d:
            out.append((d[v[1]], v))
        if not (isinstance(v[1], str) and "ManuallyDrop" in v[1]):
            for x in v[3]:
                self.to_destroy(x, out)
        return out


def place_uses(p, out):
    out.add(p[0])
    for e in p[1]:
        if e[0] == "i":
            out.add(e[1])


def op_uses(o, out):
    if "p" in o:
        place_uses(o["p"], out)


def rv_uses(r, out):
    k = r[0]
    if k in ("use", "repeat"):
        op_uses(r[1], out)
    elif k == "ref":
        place_uses(r[2], out)
    elif k == "discr":
        place_uses(r[1], out)
    elif k == "cast":
        op_uses(r[2], out)
    elif k == "bin":
        op_uses(r[2], out)
        op_uses(r[3], out)
    elif k == "un":
        op_uses(r[2], out)
    elif k == "agg":
        for o in r[2]:
            op_uses(o, out)


def succs(t):
    k = t["t"]
    if k in ("goto", "drop", "assert"):
        return [t["to"]]
    if k == "switch":
        return [a[1] for a in t["arms"]] + [t["else"]]
    if k == "call":
        return [t["to"]] if t["to"] is not None else []
    return []


def compute_live(fn, prog):
    """live-in set of locals per block. A drop counts as no use unless it runs code of the program."""
    bs = fn["blocks"]
    n = len(bs)
    gen = []
    for b in bs:
        steps = []
        for s in b["s"]:
            u, d = set(), set()
            if s[0] == "=":
                rv_uses(s[2], u)
                if not s[1][1]:
                    d.add(s[1][0])
                else:
                    place_uses(s[1], u)
            elif s[0] == "sd":
                place_uses(s[1], u)
            elif s[0] == "x":
                d.add(s[1])
            steps.append((u, d))
        t = b["t"]
        u, d = set(), set()
        if t["t"] == "switch":
            op_uses(t["on"], u)
        elif t["t"] == "assert":
            op_uses(t["cond"], u)
        elif t["t"] == "return":
            u.add(0)
        elif t["t"] == "drop":
            if prog.drops_own(t["place"][2] if len(t["place"]) > 2 else fn["locals"][t["place"][0]]):
                place_uses(t["place"], u)
        elif t["t"] == "call":
            for a in t["args"]:
                op_uses(a, u)
            if t["func"]:
                op_uses(t["func"], u)
            if not t["dest"][1]:
                d.add(t["dest"][0])
            else:
                place_uses(t["dest"], u)
        steps.append((u, d))
        gen.append(steps)
    live = [frozenset()] * n
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            cur = set()
            for s in succs(bs[i]["t"]):
                cur |= live[s]
            for u, d in reversed(gen[i]):
                cur -= d
                cur |= u
            cur = frozenset(cur)
            if cur != live[i]:
                live[i] = cur
                ch = True
    return live


def subst(v, old, new):
    if v == old:
        return new
    if not isinstance(v, tuple) or len(v) < 2:
        return v
    if v[0] in ("i", "s", "b", "f", "arg", "res", "g"):
        return v
    ch = False
    out = []
    for x in v:
        if isinstance(x, tuple):
            y = subst(x, old, new)
            ch |= y is not x
            out.append(y)
        elif isinstance(x, frozenset):
            y = frozenset(subst(e, old, new) for e in x)
            ch |= y != x
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else v


DROPPED = [None, []]      # where the result of a destructor goes
OLD_SLOTS = 1     # earlier incarnations of a symbol told apart; decoders raise it


def age_value(v, t, k=1):
    """A new incarnation of symbol t is about to appear: rename the previous ones.
    The one before becomes ("old", t, k); what was in slot k becomes ("weak", t), which stands for
    several values and is never equal to itself."""
    if v == t:
        return ("old", t, k)
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "old" and v[1] == t:
        return ("weak", t) if v[2] == k else v
    if v[0] in ("i", "s", "b", "f", "arg", "res", "g", "weak"):
        return v
    ch = False
    out = []
    for x in v:
        if isinstance(x, tuple):
            y = age_value(x, t, k)
            ch |= y is not x
            out.append(y)
        elif isinstance(x, frozenset):
            y = frozenset(age_value(e, t, k) for e in x)
            ch |= y != x
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else v


def is_weak(v):
    return contains(v, lambda x: x[0] == "weak")


ARITH = re.compile(r"(^|::)(wrapping|saturating|checked|overflowing|unchecked)_(add|sub|mul)(::<.*>)?$")
WIDE = ("weak", ("cnt",))


def is_number(v):
    return v[0] == "i" or v == WIDE or v[0] == "bin" or v[0] == "app" and isinstance(v[1], str) and ARITH.search(v[1]) is not None


def mask_numbers(v, leaves, terms):
    """v with the numbers stored in it (not those inside other terms) replaced by a mark."""
    if not isinstance(v, tuple) or not v:
        return v
    if is_number(v):
        leaves.append(v)
        if v[0] != "i":
            sub = set()
            collect_terms(v, sub)
            terms.extend(x for x in sub if is_number(x) and x != WIDE)
        return ("#",)
    if v[0] == "a" and len(v) > 3:
        return v[:3] + (tuple(mask_numbers(x, leaves, terms) for x in v[3]),)
    return v


def unmask_numbers(v, n, moving):
    if not isinstance(v, tuple) or not v:
        return v
    if is_number(v):
        n[0] += 1
        return WIDE if n[0] - 1 in moving else v
    if v[0] == "a" and len(v) > 3:
        return v[:3] + (tuple(unmask_numbers(x, n, moving) for x in v[3]),)
    return v


def contains(v, pred):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and pred(v):
            return True
        return any(contains(x, pred) for x in v if isinstance(x, (tuple, frozenset)))
    if isinstance(v, frozenset):
        return any(contains(x, pred) for x in v)
    return False


def depth(v):
    if not isinstance(v, tuple):
        if isinstance(v, frozenset):
            return max([depth(x) for x in v] or [0])
        return 0
    return 1 + max([depth(x) for x in v if isinstance(x, (tuple, frozenset))] or [0])


class State:
    __slots__ = ("stack", "mem", "facts")

    def __init__(self, stack, mem, facts):
        self.stack = stack      # tuple of frames; frame = (fid, fnkey, bb, dest, retbb)
        self.mem = mem          # loc -> value
        self.facts = facts      # term -> ("=",c) | ("!",frozenset)

    def copy(self):
        return State(self.stack, dict(self.mem), dict(self.facts))


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


class Analyzer:
    def __init__(self, prog, models, opaque=None, maxstates=40, budget=60000, ignore_exp=("tracing",)):
        self.p = prog
        self.models = models
        self.opaque = opaque or (lambda callee, an: False)
        self.maxstates = maxstates
        self.budget = budget
        self.ignore_exp = ignore_exp
        self.fids = {}
        self.fidl = []
        self.domain = {}     # ('discr', v) -> frozenset of discriminants
        self.dadt = {}       # ('discr', v) -> adt path
        self.stats = {"blocks": 0, "calls": 0, "inlined": set(), "opaque": {}, "joins": 0}
        self.sites = {}      # site -> span
        self.warn = []
        self._heads = {}
        self._again = {}

    # ---- frames --------------------------------------------------------------------------
    def fid(self, callstr):
        i = self.fids.get(callstr)
        if i is None:
            i = self.fids[callstr] = len(self.fidl)
            self.fidl.append(callstr)
        return i

    # ---- memory --------------------------------------------------------------------------
    def load(self, st, loc, path=()):
        v = st.mem.get(loc)
        if v is None:
            v = loc[1] if loc[0] == "S" else UNDEF
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if v[0] == "alt":
            if k == "v":
                return v
            return self.alt([self.proj(st, x, e) for x in v[1]], ("m", v[2], repr(e)))
        if k == "d":
            while v[0] == "r":
                v = self.load(st, v[1], v[2])
                return v
            return v
        if k == "f":
            bt = self.p.types[e[3]] if len(e) > 3 and e[3] is not None else None
            if bt is not None and bt["k"] == "adt" and bt["path"] in TRANSPARENT_ADT:
                return v
            if v[0] == "a":
                if len(v[3]) > e[1]:
                    if e[2] is not None and v[1] != "tuple" and v[2] != e[2] and bt is not None and bt["k"] == "adt" and self.p.adts.get(bt["path"], {}).get("kind") == "enum":
                        return UNDEF
                    return v[3][e[1]]
                return UNDEF
            if v[0] in ("top", "undef"):
                return v
            if v[0] == "r":
                return self.proj(st, self.load(st, v[1], v[2]), e)
            return ("fld", v, e[2] or 0, e[1])
        if k == "v":
            return v
        if k == "i":
            iv = e[1]
            if v[0] == "a" and iv[0] == "i" and 0 <= iv[1] < len(v[3]):
                return v[3][iv[1]]
            if v[0] in ("top", "undef"):
                return TOP
            return ("idx", v, iv)
        if k == "ci":
            if v[0] == "a" and not e[2] and e[1] < len(v[3]):
                return v[3][e[1]]
            if v[0] in ("top", "undef"):
                return TOP
            return ("idx", v, ("i", -e[1] if e[2] else e[1]))
        if k == "slice":
            return slice_of(v, e[1], e[2])
        return ("app", "proj:" + k, (v,)) if v[0] not in ("top", "undef") else TOP

    def alt(self, vs, tag=None):
        s = set()
        for v in vs:
            if v[0] == "alt":
                s |= v[1]
            elif v == UNDEF:
                s.add(v)
            else:
                s.add(v)
        if TOP in s:
            return TOP
        if len(s) == 1:
            return next(iter(s))
        # aggregates of the same shape are joined field-wise when small differences add up
        if len(s) > 24:
            return TOP
        return ("alt", frozenset(s), tag)

    def setpath(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "v":
            return self.setpath(st, v, path[1:], new)
        if e[0] == "f":
            bt = self.p.types[e[3]] if len(e) > 3 and e[3] is not None else None
            if bt is not None and bt["k"] == "adt" and bt["path"] in TRANSPARENT_ADT:
                return self.setpath(st, v, path[1:], new)
            if v[0] == "alt":
                return self.alt([self.setpath(st, x, path, new) for x in v[1]], ("w", v[2], repr(path)))
            if v[0] != "a":
                n = None
                tag = None
                if bt is not None:
                    if bt["k"] == "adt":
                        a = self.p.adts.get(bt["path"])
                        tag = bt["path"]
                        if a and len(a["variants"]) > (e[2] or 0):
                            n = len(a["variants"][e[2] or 0]["fields"])
                    elif bt["k"] in ("tuple", "closure"):
                        tag = "tuple" if bt["k"] == "tuple" else ("closure", bt["path"], None)
                        n = len(bt["args"])
                if n is None:
                    return TOP
                if v[0] in ("top", "undef"):
                    fs = [v] * n
                else:
                    fs = [("fld", v, e[2] or 0, i) for i in range(n)]
                v = ("a", tag, e[2] or 0, tuple(fs))
            fs = list(v[3])
            while len(fs) <= e[1]:
                fs.append(UNDEF)
            fs[e[1]] = self.setpath(st, fs[e[1]], path[1:], new)
            return ("a", v[1], v[2], tuple(fs))
        if e[0] in ("i", "ci"):
            ix = e[1] if e[0] == "i" else ("i", e[1])
            if v[0] == "a" and ix[0] == "i" and ix[1] < len(v[3]):
                fs = list(v[3])
                fs[ix[1]] = self.setpath(st, fs[ix[1]], path[1:], new)
                return ("a", v[1], v[2], tuple(fs))
            return TOP
        if e[0] == "slice":
            if is_full(e):
                return new
            while v[0] == "app" and v[1] == "setslice":
                v = v[2][0]                         # overwritten before: what is there is not known, only how long it is
                if not (v[0] == "app" and v[1] == "mixed"):
                    v = mk("mixed", v)
            return mk("setslice", v, e[1], e[2], new)
        return TOP

    def store(self, st, loc, path, new):
        if depth(new) > MAXDEPTH:
            new = TOP
        if not path:
            st.mem[loc] = new
        else:
            st.mem[loc] = self.setpath(st, self.load(st, loc), path, new)

    def resolve(self, st, fid, place):
        """place -> (loc, path) following mutable references."""
        loc = (fid, place[0])
        path = ()
        for e in place[1]:
            if e[0] == "d":
                v = self.load(st, loc, path)
                if v[0] == "r":
                    loc, path = v[1], v[2]
                else:
                    # a reference or box we hold by value / symbolically
                    base = self.p  # noqa
                    if v[0] in ("top", "undef"):
                        pass
                    elif is_sym(v):
                        loc, path = ("S", v), ()
                    # aggregates by value: transparent
            elif e[0] == "i":
                path = path + (("i", self.load(st, (fid, e[1]))),)
            else:
                path = path + (tuple(e),)
        return loc, path

    def read(self, st, fid, place):
        if not place[1]:
            return self.load(st, (fid, place[0]))
        # avoid going through 'S' locations for plain reads of symbolic values
        v = self.load(st, (fid, place[0]))
        for e in place[1]:
            if e[0] == "d":
                if v[0] == "r":
                    v = self.load(st, v[1], v[2])
                elif is_sym(v):
                    v = st.mem.get(("S", v), v)
            elif e[0] == "i":
                v = self.proj(st, v, ("i", self.load(st, (fid, e[1]))))
            else:
                v = self.proj(st, v, e)
        return v

    def deep(self, st, v, d=0):
        """Replace mutable references by what they point to (for events)."""
        if d > 8 or not isinstance(v, tuple):
            return v
        if v[0] == "r":
            return self.deep(st, self.load(st, v[1], v[2]), d + 1)
        if v[0] == "a":
            return ("a", v[1], v[2], tuple(self.deep(st, x, d + 1) for x in v[3]))
        if v[0] == "alt":
            return ("alt", frozenset(self.deep(st, x, d + 1) for x in v[1]), v[2])
        if is_sym(v):
            v2 = st.mem.get(("S", v))
            if v2 is not None and v2 != v:
                return self.deep(st, v2, d + 1)
            if v[0] == "app":
                return ("app", v[1], tuple(self.deep(st, x, d + 1) for x in v[2]))
        return v

    # ---- facts ---------------------------------------------------------------------------
    def known(self, st, v):
        """Value of v if the facts determine it."""
        v = self.simp(st, v)
        if v[0] == "i" or v[0] == "s":
            return v
        f = st.facts.get(v)
        if f and f[0] == "=":
            return f[1]
        return v

    def simp(self, st, v):
        if v[0] == "not":
            x = self.known(st, v[1])
            if x[0] == "i":
                return I(0 if x[1] else 1)
            return v
        if v[0] == "eq":
            a, b = self.known(st, v[1]), v[2]
            if a[0] in ("i", "s") and b[0] in ("i", "s"):
                return I(a == b)
            f = st.facts.get(v[1])
            if f and f[0] == "!" and b in f[1]:
                return FALSE
            return v
        if v[0] == "discr":
            f = st.facts.get(v)
            if f and f[0] == "=":
                return f[1]
            x = v[1]
            if x[0] == "a":
                return self.discr_of(x)
        return v

    def discr_of(self, agg):
        tag = agg[1]
        if isinstance(tag, str) and tag in self.p.adts:
            return I(self.p.discr(tag, agg[2]))
        return I(agg[2])

    def assume(self, st, v, c):
        """Assume sym v == const c. Raises Infeasible."""
        v = self.simp(st, v)
        if v[0] in ("i", "s"):
            if v != c:
                raise Infeasible()
            return []
        if v[0] == "not":
            return self.assume(st, v[1], I(0 if c[1] else 1)) if c[0] == "i" and c[1] in (0, 1) else []
        if v[0] == "eq":
            if c[1]:
                if v[2][0] in ("i", "s"):
                    return self.assume(st, v[1], v[2])
            else:
                if v[2][0] in ("i", "s"):
                    return self.assume_not(st, v[1], [v[2]])
        if v[0] in ("top", "undef", "alt"):
            return []
        if not is_sym(v):
            return []
        if is_weak(v):
            return [("assume", v, "=", c)]      # true here, but nothing to remember
        f = st.facts.get(v)
        if f:
            if f[0] == "=":
                if f[1] != c:
                    raise Infeasible()
                return []
            if c in f[1]:
                raise Infeasible()
        d = self.domain.get(v)
        if d is not None and c not in d:
            raise Infeasible()
        st.facts[v] = ("=", c)
        return [("assume", v, "=", c)]

    def assume_not(self, st, v, cs):
        v = self.simp(st, v)
        if v[0] in ("i", "s"):
            if v in cs:
                raise Infeasible()
            return []
        if v[0] in ("not", "eq"):
            bad = {c[1] for c in cs if c[0] == "i"}
            rest = {0, 1} - bad
            if not rest:
                raise Infeasible()
            if len(rest) == 1:
                return self.assume(st, v, I(rest.pop()))
            return []
        if not is_sym(v):
            return []
        if is_weak(v):
            d = self.domain.get(v)
            left = d - frozenset(cs) if d is not None else ()
            if len(left) == 1:
                return [("assume", v, "=", next(iter(left)))]
            return [("assume", v, "!", frozenset(cs))]
        f = st.facts.get(v)
        if f and f[0] == "=":
            if f[1] in cs:
                raise Infeasible()
            return []
        ns = frozenset(cs) | (f[1] if f else frozenset())
        d = self.domain.get(v)
        if d is not None:
            left = d - ns
            if not left:
                raise Infeasible()
            if len(left) == 1:
                c = next(iter(left))
                st.facts[v] = ("=", c)
                return [("assume", v, "=", c)]
        if f and f[1] == ns:
            return []
        st.facts[v] = ("!", ns)
        return [("assume", v, "!", frozenset(cs))]

    # ---- operands / rvalues --------------------------------------------------------------
    def const(self, st, c):
        c = c["k"] if "k" in c else c
        x = c.get("c")
        if x == "int":
            return I(c["v"])
        if x == "str":
            return S(c["v"])
        if x == "bytes":
            return ("b", tuple(c["v"]) if isinstance(c["v"], list) else c["v"])
        if x == "ref":
            return self.const(st, c["v"])
        if x == "array":
            return ("a", "array", 0, tuple(self.const(st, e) for e in c["v"]))
        if x == "agg":
            return ("a", self.aggtag(c.get("ty")), c.get("var", 0) or 0, tuple(self.const(st, e) for e in c.get("v", [])))
        if x in ("fn",):
            return ("f", freeze(c.get("callee") or c.get("v")))
        if x == "closure":
            cal = c.get("callee") or {}
            return ("a", ("closure", c.get("path") or c.get("v") or cal.get("path"), c.get("key") or cal.get("key")), 0, ())
        if x == "static":
            return ("g", c.get("v") or c.get("path"))
        if x == "promoted":
            k = c.get("v") or c.get("key")
            r = self.eval_promoted(k)
            return r
        return ("g", "const:" + str(c.get("s") or c.get("v") or c.get("ty")))

    def aggtag(self, ty):
        if ty is None:
            return "tuple"
        t = self.p.types[ty]
        return t["path"] if t["k"] == "adt" else ("array" if t["k"] == "array" else "tuple")

    def eval_promoted(self, k):
        fn = self.p.fns.get(k)
        if fn is None:
            return ("g", "promoted:" + str(k))
        sub = Analyzer(self.p, self.models, self.opaque, self.maxstates, 2000, self.ignore_exp)
        g = sub.explore(k, [])
        rs = [e for (_, _, ev) in g.edges for e in ev if e[0] == "ret"]
        if len(rs) == 1:
            return rs[0][1]
        return ("g", "promoted:" + k)

    def operand(self, st, fid, o):
        if "p" in o:
            return self.read(st, fid, o["p"])
        return self.const(st, o)

    def rvalue(self, st, fid, r, place, fn):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, r[1])
        if k == "ref":
            pl = r[2]
            if r[1]:
                loc, path = self.resolve(st, fid, pl)
                return ("r", loc, path)
            return self.read(st, fid, pl)
        if k == "cast":
            v = self.operand(st, fid, r[2])
            if len(r) > 5 and isinstance(r[5], dict):
                if v[0] == "a" and isinstance(v[1], tuple):
                    return v
                return ("f", freeze(r[5]))
            return self.cast(r[1], v, r[3], r[4])
        if k == "bin":
            a, b = self.operand(st, fid, r[2]), self.operand(st, fid, r[3])
            v = self.binop(st, r[1], a, b)
            if r[1].endswith("WithOverflow") and a[0] == "i" and b[0] == "i" and v[3][0][0] == "i" and place is not None and not place[1]:
                m = re.match(r"\(([iu])(8|16|32|64|128|size),", self.p.tys(fn["locals"][place[0]]))
                if m:
                    n, w = v[3][0][1], 64 if m.group(2) == "size" else int(m.group(2))
                    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if m.group(1) == "i" else (0, (1 << w) - 1)
                    if not lo <= n <= hi:
                        return ("a", "tuple", 0, (TOP, I(1)))
                    return ("a", "tuple", 0, (v[3][0], FALSE))
            return v
        if k == "un":
            v = self.operand(st, fid, r[2])
            if r[1] == "Not":
                return self.lnot(v, r[2], fn)
            if r[1] == "Neg":
                return I(-v[1]) if v[0] == "i" else mk("neg", v)
            if r[1] == "PtrMetadata":
                return self.length(v)
            return mk("un:" + r[1], v)
        if k == "discr":
            v = self.read(st, fid, r[1])
            if v[0] == "r":
                v = self.load(st, v[1], v[2])
            ty = r[1][2] if len(r[1]) > 2 else None
            return self.discr_val(st, v, ty)
        if k == "agg":
            ops = tuple(self.operand(st, fid, o) for o in r[2])
            h = r[1]
            if h[0] == "adt":
                if h[1] in TRANSPARENT_ADT and len(ops) >= 1:
                    return ops[0]
                return ("a", h[1], h[2], ops)
            if h[0] == "closure":
                return ("a", ("closure", h[1], h[2]), 0, ops)
            return ("a", h[0], 0, ops)
        if k == "repeat":
            n = r[2] if len(r) > 2 and isinstance(r[2], int) else None
            return mk("repeat", self.operand(st, fid, r[1]), *([] if n is None else [I(n)]))
        if k == "tls":
            return ("g", "tls:" + r[1])
        return TOP

    def length(self, v):
        if v[0] == "s":
            return I(len(v[1].encode()))
        if v[0] == "a" and v[1] in ("array", "vec"):
            return I(len(v[3]))
        if v[0] == "app" and v[1] == "repeat" and len(v[2]) > 1:
            return v[2][1]
        if v[0] == "app" and v[1] in ("setslice", "mixed"):
            return self.length(v[2][0])
        if v[0] == "app" and v[1] == "slice" and v[2][0][0] == "app" and v[2][0][1] in ("repeat", "setslice", "mixed") and v[2][1] == I(0) and v[2][2] != ("g", "end"):
            return v[2][2]                      # a part of a buffer, which is there or the program panics
        return mk("len", v)

    def discr_val(self, st, v, ty):
        if v[0] == "a":
            return self.discr_of(v)
        if v[0] == "alt":
            return ("altdiscr", v)
        if v[0] in ("top", "undef"):
            return TOP
        if v[0] == "i":
            return v
        d = ("discr", v)
        if ty is not None and d not in self.domain:
            a = self.p.adt_of(ty)
            ad = self.p.adts.get(a) if a else None
            if ad and ad["kind"] == "enum":
                self.domain[d] = frozenset(I(x["discr"]) for x in ad["variants"])
                self.dadt[d] = a
        return d

    def cast(self, kind, v, to, frm):
        tt, ft = self.p.types[to], self.p.types[frm]
        if kind.startswith("IntToInt"):
            if v[0] == "i":
                n = v[1]
                b = tt.get("bits")
                if tt["k"] == "uint" and b:
                    n &= (1 << b) - 1
                elif tt["k"] == "int" and b:
                    n &= (1 << b) - 1
                    if n >> (b - 1):
                        n -= 1 << b
                return I(n)
            if v[0] in ("top", "undef"):
                return TOP
            if v[0] == "alt":
                return self.alt([self.cast(kind, x, to, frm) for x in v[1]], ("c", v[2], to))
            if v[0] == "altdiscr":
                return self.alt([self.cast(kind, self.discr_val(None, x, None), to, frm) for x in v[1][1]], ("dc", v[1][2], to))
            fb, tb = ft.get("bits", 0), tt.get("bits", 0)
            if ft["k"] in ("bool",) or v[0] == "discr":
                return v
            if tb > fb and (ft["k"] == "uint" or tt["k"] == "int"):
                return v
            if tb == fb and ft["k"] == tt["k"]:
                return v
            return mk("cast:%s->%s" % (ft["s"], tt["s"]), v)
        if "Float" in kind or kind.startswith("PointerExpose"):
            return TOP if v[0] in ("top", "undef") else mk("cast:%s->%s" % (ft["s"], tt["s"]), v)
        return v

    def lnot(self, v, o, fn):
        if v[0] == "i":
            return I(0 if v[1] else 1) if v[1] in (0, 1) else mk("bitnot", v)
        if v[0] == "not":
            return v[1]
        if v[0] == "alt":
            return self.alt([self.lnot(x, o, fn) for x in v[1]], ("n", v[2]))
        if v[0] in ("top", "undef"):
            return TOP
        return ("not", v)

    def mkeq(self, a, b):
        if a[0] == "alt" or b[0] == "alt":
            # join of equalities, at most a few alternatives
            la = a[1] if a[0] == "alt" else [a]
            lb = b[1] if b[0] == "alt" else [b]
            return self.alt([self.mkeq(x, y) for x in la for y in lb], ("e", a[2] if a[0] == "alt" else repr(a), b[2] if b[0] == "alt" else repr(b)))
        if a == b and a[0] not in ("top", "undef"):
            return TRUE if not is_weak(a) else TOP
        if a[0] in ("i", "s", "b") and b[0] in ("i", "s", "b"):
            return I(a == b)
        if a[0] in ("i", "s", "b"):
            a, b = b, a
        if a[0] in ("top", "undef") or b[0] in ("top", "undef"):
            return TOP
        if a[0] == "a" and b[0] == "a" and a[1] == b[1]:
            if a[2] != b[2]:
                return FALSE
            if len(a[3]) == len(b[3]):
                r = TRUE
                for x, y in zip(a[3], b[3]):
                    e = self.mkeq(x, y)
                    if e == FALSE:
                        return FALSE
                    if e != TRUE:
                        r = e if r == TRUE else mk("and", r, e)
                return r
        # a constant compared with len(x): is_empty and len()==0 are the same test
        if b[0] not in ("i", "s", "b") and repr(b) < repr(a):
            a, b = b, a
        if a[0] in ("discr", "bin") or is_sym(a):
            return ("eq", a, b)
        return ("eq", a, b)

    def binop(self, st, op, a, b):
        if a[0] == "altdiscr":
            return self.alt([self.binop(st, op, self.discr_val(st, x, None), b) for x in a[1][1]], ("db", a[1][2], op, repr(b)))
        ov = False
        if op.endswith("WithOverflow"):
            ov = True
            op = op[: -len("WithOverflow")]
        r = self.binop1(st, op, a, b)
        if ov:
            o = FALSE if (a[0] == "i" and b[0] == "i") else ("ovf", op, a, b)
            if a[0] == "i" and b[0] == "i" and op == "Sub" and a[1] < b[1]:
                o = ("ovf", op, a, b)
            return ("a", "tuple", 0, (r, o))
        return r

    def binop1(self, st, op, a, b):
        if op == "Eq":
            return self.mkeq(a, b)
        if op == "Ne":
            return self.lnot(self.mkeq(a, b), None, None)
        if a[0] in ("top", "undef") or b[0] in ("top", "undef"):
            return TOP
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            t = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y,
                 "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Lt": lambda: int(x < y), "Le": lambda: int(x <= y),
                 "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y), "Shl": lambda: x << y, "Shr": lambda: x >> y,
                 "Div": lambda: x // y if y else 0, "Rem": lambda: x % y if y else 0}.get(op.replace("Unchecked", ""))
            if t:
                return I(t())
        if op == "Gt":
            return ("bin", "Lt", b, a)
        if op == "Ge":
            return self.lnot(("bin", "Lt", a, b), None, None)
        if op == "Le":
            return self.lnot(("bin", "Lt", b, a), None, None)
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor"):
            if op == "BitAnd" and (a == FALSE or b == FALSE):
                return FALSE
            if op == "Add" and a == I(0):
                return b
            if op in ("Add", "Sub") and b == I(0):
                return a
            if op == "BitAnd" and a == b or op == "BitOr" and a == b:
                return a
            if repr(b) < repr(a):
                a, b = b, a
            return ("bin", op, a, b)
        if op == "Sub":
            if b == I(0):
                return a
            if a == b:
                return I(0)
            if a[0] == "bin" and a[1] == "Add":
                if a[2] == b:
                    return a[3]
                if a[3] == b:
                    return a[2]
        return ("bin", op, a, b)

    # ---- exploration ---------------------------------------------------------------------
    def explore(self, key, args, mem=None, facts=None):
        fn = self.p.fns[key]
        fid = self.fid((("root", key),))
        st = State(((fid, key, 0, None, None),), dict(mem or {}), dict(facts or {}))
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        g = Graph(self, key)
        self.graph = g
        start = self.node_for(g, st)
        g.start = start
        work = [start]
        while work:
            n = work.pop()
            if n in g.done:
                continue
            g.done.add(n)
            if len(g.done) > self.budget:
                raise Budget("state budget exceeded in " + key)
            for (ev, st2) in self.step(g.states[n]):
                if st2 is None:
                    g.edges.append((n, None, tuple(ev)))
                    continue
                m = self.node_for(g, st2)
                g.edges.append((n, m, tuple(ev)))
                if m not in g.done:
                    work.append(m)
        return g

    def gc(self, st):
        """Keep only live cells and the facts about terms still reachable."""
        keep = {}
        work = []
        for i, fr in enumerate(st.stack):
            fid, key, bb = fr[0], fr[1], fr[2]
            if i + 1 < len(st.stack):
                bb = st.stack[i + 1][4]     # a suspended frame resumes after its call
            live = self.p.live(key)[bb]
            if i + 1 < len(st.stack) and st.stack[i + 1][3][1]:
                live = live | {st.stack[i + 1][3][0]}
            for l in live:
                loc = (fid, l)
                if loc in st.mem:
                    work.append(loc)
        # cells of root-argument referents always stay (observable on return)
        for loc in st.mem:
            if loc[0] in ("A", "S"):
                work.append(loc)
        seen = set()
        while work:
            loc = work.pop()
            if loc in seen or loc not in st.mem:
                continue
            seen.add(loc)
            v = st.mem[loc]
            keep[loc] = v
            collect_refs(v, work)
        terms = set()
        for v in keep.values():
            collect_terms(v, terms)
        facts = {}
        for t, f in st.facts.items():
            if t in terms or any_sub(t, terms):
                facts[t] = f
        st.mem = keep
        st.facts = facts
        return st

    def in_loop(self, key, bb):
        """Can block bb of the function run again after it has run?"""
        r = self._again.get((key, bb))
        if r is None:
            bs = self.p.fns[key]["blocks"]
            seen, work = set(), list(succs(bs[bb]["t"]))
            while work:
                b = work.pop()
                if b not in seen:
                    seen.add(b)
                    work.extend(succs(bs[b]["t"]))
            r = self._again[(key, bb)] = bb in seen
        return r

    def loop_heads(self, key):
        """Blocks a back edge of the function's flow graph leads to."""
        h = self._heads.get(key)
        if h is None:
            bs = self.p.fns[key]["blocks"]
            h, state, work = set(), {0: 1}, [(0, iter(succs(bs[0]["t"])))]
            while work:
                b, it = work[-1]
                for s in it:
                    if s not in state:
                        state[s] = 1
                        work.append((s, iter(succs(bs[s]["t"]))))
                        break
                    if state[s] == 1:
                        h.add(s)
                else:
                    state[b] = 2
                    work.pop()
            self._heads[key] = h = frozenset(h)
        return h

    def widen(self, g, st):
        """Numbers that only count: at a loop head, a state that differs from several earlier ones in
        nothing but the value of some numbers stands for any value of those numbers."""
        fr = st.stack[-1]
        if fr[2] not in self.loop_heads(fr[1]):
            return
        leaves, terms, masked = [], [], []
        for loc, v in sorted(st.mem.items(), key=repr):
            masked.append((loc, mask_numbers(v, leaves, terms)))
        terms = frozenset(terms)
        if not leaves:
            return
        facts = frozenset((t, f) for t, f in st.facts.items() if not terms or not contains(t, lambda x: x in terms))
        k = (tuple((f[0], f[2]) for f in st.stack), tuple(masked), facts)
        seen = g.masks.setdefault(k, [])
        vec = tuple(leaves)
        if vec not in seen:
            seen.append(vec)
        if len(seen) < 5:
            return
        moving = set()
        for i in range(len(vec)):
            vals = []
            for s in seen:
                if s[i] not in vals:
                    vals.append(s[i])
            if len(vals) < 5:
                continue
            last = vals[-5:]
            if all(x[0] == "i" for x in last):
                if len({b[1] - a[1] for a, b in zip(last, last[1:])}) > 1 and len(vals) < 16:
                    continue
            moving.add(i)
        if moving:
            n = [0]
            for loc, v in sorted(st.mem.items(), key=repr):
                st.mem[loc] = unmask_numbers(v, n, moving)
            self.stats["widened"] = self.stats.get("widened", 0) + 1
            self.gc(st)

    def node_for(self, g, st):
        self.gc(st)
        self.widen(g, st)
        stk = tuple((fr[0], fr[2]) for fr in st.stack)
        key = (stk, frozenset(st.mem.items()), frozenset(st.facts.items()))
        n = g.index.get(key)
        if n is not None:
            return n
        bucket = g.buckets.setdefault(stk, [])
        if len(bucket) >= self.maxstates:
            # join with the bucket's summary
            self.stats["joins"] += 1
            s0 = g.summary.get(stk)
            if s0 is not None:
                base = g.states[s0]
                st = self.join(base, st)
                self.gc(st)
                key = (stk, frozenset(st.mem.items()), frozenset(st.facts.items()))
                n = g.index.get(key)
                if n is not None:
                    return n
            n = g.new(st, key)
            g.summary[stk] = n
            return n
        n = g.new(st, key)
        bucket.append(n)
        return n

    def join(self, a, b):
        mem = {}
        for loc in set(a.mem) | set(b.mem):
            x, y = a.mem.get(loc), b.mem.get(loc)
            if x is None or y is None:
                mem[loc] = x if y is None else y
                if loc[0] == "S":
                    mem[loc] = self.alt([loc[1], mem[loc]], ("j", loc))
                else:
                    mem[loc] = self.alt([UNDEF, mem[loc]], ("j", loc))
            else:
                mem[loc] = x if x == y else self.joinv(x, y, ("j", loc))
        facts = {}
        for t, f in a.facts.items():
            h = b.facts.get(t)
            if h is None:
                continue
            if f == h:
                facts[t] = f
            elif f[0] == "!" and h[0] == "!":
                c = f[1] & h[1]
                if c:
                    facts[t] = ("!", c)
            elif f[0] == "=" and h[0] == "!" and f[1] not in h[1]:
                facts[t] = h
            elif h[0] == "=" and f[0] == "!" and h[1] not in f[1]:
                facts[t] = f
        return State(a.stack, mem, facts)

    def joinv(self, x, y, tag):
        return self.alt([x, y], tag)

    def site(self, st):
        """Identity of the current call site: the call string, as an interned id."""
        return self.fid(tuple(self.fidl[st.stack[-1][0]]) + ((st.stack[-1][1], st.stack[-1][2]),))

    def site_desc(self, site):
        cs = self.fidl[site]
        out = []
        for k, b in cs:
            if k == "root":
                continue
            fn = self.p.fns.get(k)
            if fn and isinstance(b, int):
                out.append("%s (%s)" % (fn["path"], fn["blocks"][b]["span"]))
        return " > ".join(out)

    def step(self, st0):
        """Execute one block; yield (events, state|None)."""
        st = st0.copy()
        fr = st.stack[-1]
        fid, key, bb = fr[0], fr[1], fr[2]
        fn = self.p.fns[key]
        blk = fn["blocks"][bb]
        self.stats["blocks"] += 1
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fid, s[2], s[1], fn)
                if not s[1][1]:
                    st.mem[(fid, s[1][0])] = v if depth(v) <= MAXDEPTH else TOP
                else:
                    loc, path = self.resolve(st, fid, s[1])
                    self.store(st, loc, path, v)
            elif s[0] == "sd":
                loc, path = self.resolve(st, fid, s[1])
                v = self.load(st, loc, path)
                if v[0] == "a":
                    self.store(st, loc, path, ("a", v[1], s[2], v[3]))
                else:
                    self.store(st, loc, path, TOP)
            elif s[0] == "x":
                st.mem.pop((fid, s[1]), None)
        t = blk["t"]
        k = t["t"]
        if k == "goto":
            return [([], self.goto(st, t["to"]))]
        if k == "drop":
            ev = []
            v = self.load(st, (fid, t["place"][0])) if not t["place"][1] else self.read(st, fid, t["place"])
            if v not in (UNDEF, TOP) and v[0] != "i":
                ev.append(("drop", self.deep(st, v), t["place"][2] if len(t["place"]) > 2 else None))
            pty = t["place"][2] if len(t["place"]) > 2 else fn["locals"][t["place"][0]]
            if self.p.drops_own(pty):
                return [(ev + e, s) for e, s in self.destroy(st, v, pty, t["to"])]
            return [(ev, self.goto(st, t["to"]))]
        if k == "unreachable":
            return []
        if k == "resume" or k == "other":
            return []
        if k == "return":
            rv = self.load(st, (fid, 0))
            return self.do_return(st, rv)
        if k == "assert":
            c = self.operand(st, fid, t["cond"])
            out = []
            if re.match(r"(Misaligned|Null)PointerDereference", t["msg"]):
                return [([], self.goto(st.copy(), t["to"]))]       # the compiler's check of what safe code guarantees
            want = I(1 if t["exp"] else 0)
            for c1, st1 in self.split_alt(st, c):
                cc = self.known(st1, c1)
                if cc == want:
                    out.append(([], self.goto(st1.copy(), t["to"])))
                    continue
                if cc[0] != "i":
                    s2 = st1.copy()
                    try:
                        ev = self.assume(s2, c1, want)
                        out.append((ev, self.goto(s2, t["to"])))
                    except Infeasible:
                        pass
                self.sites.setdefault(self.site(st1), t.get("span"))
                out.append(([("panic", "assert", t["msg"], self.site(st1), self.deep(st1, c1), dict(st1.facts), self.assert_type(fn, t["msg"]),
                             tuple(self.deep(st1, x) for x in self.assert_operands(st1, fid, fn, t["msg"])))], None))
            return out
        if k == "switch":
            return self.switch(st, fid, t)
        if k == "call":
            return self.call(st, fid, fn, t)
        return []

    def assert_type(self, fn, msg):
        """The integer type an overflow assertion is about."""
        m = re.search(r"const -?\d+_([iu](?:8|16|32|64|128|size))", msg)
        if m:
            return m.group(1)
        m = re.search(r"(?:move|copy) _(\d+)[,)]", msg)
        if m and int(m.group(1)) < len(fn["locals"]):
            return self.p.tys(fn["locals"][int(m.group(1))])
        return "?"

    def assert_operands(self, st, fid, fn, msg):
        out = []
        for m in re.finditer(r"const (-?\d+)_[iu]\w+|(?:move|copy) _(\d+)(?=[,)])|(\()", msg):
            if m.group(1) is not None:
                out.append(I(int(m.group(1))))
            elif m.group(2) is not None and int(m.group(2)) < len(fn["locals"]):
                out.append(self.load(st, (fid, int(m.group(2)))))
        return out

    def goto(self, st, bb):
        fr = st.stack[-1]
        st.stack = st.stack[:-1] + ((fr[0], fr[1], bb) + fr[3:],)
        return st

    def do_return(self, st, rv):
        fr = st.stack[-1]
        if len(st.stack) == 1:
            outs = {loc: self.deep(st, v) for loc, v in st.mem.items() if loc[0] in ("A", "S")}
            return [([("ret", self.deep(st, rv), dict(st.facts), outs)], None)]
        st.stack = st.stack[:-1]
        caller = st.stack[-1]
        for loc in [l for l in st.mem if l[0] == fr[0]]:
            # cells of the finished frame may only be reachable through returned references
            pass
        if len(fr) > 5 and fr[5] is not None:
            outs = []
            for rv2 in self.models.post(self, st, fr[5], rv):
                s2 = st.copy()
                self.assign(s2, caller[0], fr[3], rv2)
                outs.append(([], self.goto(s2, fr[4])))
            return outs
        if fr[3] is not DROPPED:
            self.assign(st, caller[0], fr[3], rv)
        return [([], self.goto(st, fr[4]))]

    def assign(self, st, fid, place, v):
        if depth(v) > MAXDEPTH:
            v = TOP
        if not place[1]:
            st.mem[(fid, place[0])] = v
        else:
            loc, path = self.resolve(st, fid, place)
            self.store(st, loc, path, v)

    def split_alt(self, st, v):
        """Fork the state over a joined value (refining the cells that hold exactly it)."""
        if v[0] == "alt":
            out = []
            for x in v[1]:
                s = st.copy()
                refine(s, v, x)
                out.append((x, s))
            return out
        if v[0] == "altdiscr":
            out = []
            for x in v[1][1]:
                if x == UNDEF:
                    continue
                s = st.copy()
                refine(s, v[1], x)
                out.append((self.discr_val(s, x, None), s))
            return out
        return [(v, st)]

    def switch(self, st, fid, t):
        on = self.operand(st, fid, t["on"])
        out = []
        arms = [(I(self.signed(a[0], t["ty"])), a[1]) for a in t["arms"]]
        for v, s in self.split_alt(st, on):
            kv = self.known(s, v)
            if kv[0] == "i":
                to = next((b for c, b in arms if c == kv), t["else"])
                out.append(([], self.goto(s.copy(), to)))
                continue
            if kv == UNDEF:
                continue
            for c, b in arms:
                s2 = s.copy()
                try:
                    ev = self.assume(s2, v, c)
                except Infeasible:
                    continue
                out.append((ev, self.goto(s2, b)))
            s2 = s.copy()
            try:
                isb = self.p.types[t["ty"]]["k"] == "bool"
                if isb and len(arms) == 1:
                    ev = self.assume(s2, v, I(1 - arms[0][0][1]))
                else:
                    ev = self.assume_not(s2, v, [c for c, _ in arms])
                out.append((ev, self.goto(s2, t["else"])))
            except Infeasible:
                pass
        return out

    def signed(self, n, ty):
        t = self.p.types[ty]
        if t["k"] == "int":
            b = t.get("bits", 64)
            n &= (1 << b) - 1
            if n >> (b - 1):
                n -= 1 << b
        return n

    # ---- calls ---------------------------------------------------------------------------
    def call(self, st, fid, fn, t):
        cal = t["callee"] or {}
        args = [self.operand(st, fid, a) for a in t["args"]]
        self.stats["calls"] += 1
        exp = t.get("exp") or ""
        site = self.site(st)
        self.sites[site] = t["span"]
        c = Call(self, st, fid, fn, t, cal, args, site, exp)
        if t["to"] is None:
            # diverging
            kind = cal.get("rpath") or cal.get("path") or "?"
            return [([("panic", kind, "", site, tuple(self.deep(st, a) for a in args), dict(st.facts))], None)]
        if any(exp_is(exp, x) for x in self.ignore_exp):
            return c.ret(("app", "noise", (I(site),)))
        if cal.get("ctor"):
            adt, v = cal["ctor"]
            return c.ret(("a", adt, v, tuple(args)) if adt not in TRANSPARENT_ADT else args[0])
        if cal.get("closure") and cal.get("key") in self.p.fns:
            return self.inline(c, cal["key"], args)
        # calls of closures and function values
        if cal.get("trait") in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn") and cal.get("key") not in self.p.fns:
            f = args[0]
            if f[0] == "r":
                f = self.load(st, f[1], f[2])
            return self.call_value(c, f, args[0], args[1])
        if cal.get("path") in (None, "<indirect>"):
            f = self.operand(st, fid, t["func"]) if t["func"] else TOP
            return self.call_value(c, f, f, ("a", "tuple", 0, tuple(args)))
        m = self.models.lookup(self, c)
        if m is not None:
            r = m(c)
            if r is not None:
                return r
        k = cal.get("key")
        if k in self.p.fns and not self.opaque(c, self) and len(st.stack) < 40 and all(f[1] != k for f in st.stack):
            return self.inline(c, k, args)
        return self.models.default(c)

    def destroy(self, st, v, ty, to):
        """Run the program's destructors for a value that is dropped, then go on at block `to`."""
        out = []
        vs = v[1] if v[0] == "alt" else (v,)
        for x in vs:
            todo = self.p.to_destroy(x, [])
            if not todo and is_sym(x) and self.p.types[ty]["k"] == "adt" and self.p.types[ty]["path"] in self.p.destructors():
                todo = [(self.p.destructors()[self.p.types[ty]["path"]], x)]
            s = st.copy()
            s = self.goto(s, to)
            fr = st.stack[-1]
            base = tuple(self.fidl[fr[0]]) + ((fr[1], fr[2]),)
            for n, (key, y) in reversed(list(enumerate(todo))):
                if len(s.stack) >= 40 or any(f[1] == key for f in s.stack):
                    continue
                self.stats["inlined"].add(key)
                fid = self.fid(base + (("in#%d" % n, key),))
                for loc in [l for l in s.mem if l[0] == fid]:
                    del s.mem[loc]
                loc = ("C", ("dropped", fid))
                s.mem[loc] = y
                s.mem[(fid, 1)] = ("r", loc, ())
                s.stack = s.stack + ((fid, key, 0, DROPPED, s.stack[-1][2], None),)
            out.append(([], s))
        return out

    def inline(self, c, key, args, dest=None, post=None):
        st = c.st.copy()
        fn = self.p.fns[key]
        self.stats["inlined"].add(key)
        fid = self.fid(tuple(self.fidl[st.stack[-1][0]]) + ((st.stack[-1][1], st.stack[-1][2]), ("in", key)))
        # forget an earlier activation of the same frame
        for loc in [l for l in st.mem if l[0] == fid]:
            del st.mem[loc]
        argc = fn["argc"]
        if fn["spread"] is not None or (fn["closure"] and len(args) == 2 and argc != 2 and args[1][0] == "a"):
            pass
        if fn["closure"] and fn["spread"] is None and len(args) == 2 and args[1][0] == "a" and args[1][1] == "tuple":
            args = [args[0]] + list(args[1][3])
        for i, a in enumerate(args[:argc]):
            st.mem[(fid, i + 1)] = a
        st.stack = st.stack + ((fid, key, 0, c.t["dest"] if dest is None else dest, c.t["to"], post),)
        ev = []
        return [(ev, st)]

    def call_value(self, c, f, self_arg, tup, post=None):
        """Call a closure / fn value with an argument tuple."""
        st = c.st
        if f[0] == "alt":
            out = []
            for x in f[1]:
                out += self.call_value(c, x, x, tup)
            return out
        if f[0] == "a" and isinstance(f[1], tuple) and f[1][0] == "closure":
            key = f[1][2]
            if key not in self.p.fns:
                ks = [k for k in self.p._by_upath.get(f[1][1], []) if not self.p.fns[k]["shim"]]
                key = ks[0] if len(ks) == 1 else None
            if key and len(st.stack) < 40 and all(fr[1] != key for fr in st.stack):
                fn = self.p.fns[key]
                sa = self_arg
                if fn["shim"]:
                    return self.inline(c, key, [sa, tup])
                # a by-value closure called through a &mut self body: give it a cell
                selfty = self.p.types[fn["locals"][1]]
                if selfty["k"] == "ref" and selfty.get("mut") and sa[0] != "r":
                    loc = ("C", c.site)
                    st2 = c.st.copy()
                    st2.mem[loc] = sa
                    c = c.with_state(st2)
                    sa = ("r", loc, ())
                elif not (selfty["k"] == "ref") and sa[0] == "r":
                    sa = f
                fields = list(tup[3]) if tup[0] == "a" else [("fld", tup, 0, i) for i in range(fn["argc"] - 1)]
                return self.inline(c, key, [sa] + fields[: max(fn["argc"] - 1, 0)])
        if f[0] == "f":
            cal = thaw(f[1])
            if cal and cal.get("closure"):
                cv = ("a", ("closure", cal.get("path"), cal.get("key")), 0, ())
                return self.call_value(c, cv, cv, tup)
            if cal:
                a = list(tup[3]) if tup[0] == "a" else [("fld", tup, 0, i) for i in range(4)]
                if cal.get("ctor"):
                    adt, v = cal["ctor"]
                    return c.ret(("a", adt, v, tuple(a)))
                c2 = Call(self, c.st, c.fid, c.fn, c.t, cal, a, c.site, c.exp)
                m = self.models.lookup(self, c2)
                if m is not None:
                    r = m(c2)
                    if r is not None:
                        return r
                k = cal.get("key")
                if k in self.p.fns and not self.opaque(c2, self) and len(st.stack) < 40 and all(fr[1] != k for fr in st.stack):
                    return self.inline(c2, k, a)
                return self.models.default(c2)
        cc = Call(self, c.st, c.fid, c.fn, c.t, {"path": "call-value", "rpath": "call-value"}, [f] + (list(tup[3]) if tup[0] == "a" else [tup]), c.site, c.exp)
        return self.models.default(cc)


TRANSPARENT_ADT = {
    "std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "std::mem::ManuallyDrop", "std::mem::MaybeUninit",
    "std::pin::Pin", "std::mem::MaybeDangling", "core::mem::MaybeDangling",
}


def exp_is(exp, crate):
    return any(e.split("::")[0].startswith(crate) for e in exp.split(","))


def refine(st, old, new):
    for loc, v in list(st.mem.items()):
        if v == old:
            st.mem[loc] = new
        elif v[0] == "altdiscr" and v[1] == old:
            st.mem[loc] = ("altdiscr1",) if False else v
        elif contains(v, lambda x: x == old):
            st.mem[loc] = subst(v, old, new)


def is_full(e):
    return e[1] == I(0) and e[2] is None


def mk(name, *args):
    if any(a[0] in ("top", "undef") for a in args if isinstance(a, tuple)):
        return TOP
    return ("app", name, tuple(args))


def slice_of(v, lo, hi):
    """Canonical substring term."""
    if lo == I(0) and hi is None:
        return v
    if v[0] in ("top", "undef"):
        return TOP
    if hi is None and v[0] == "app" and v[1] == "slice" and v[2][2] == ("g", "end"):
        a, b = v[2][1], lo
        if a[0] == "i" and b[0] == "i":
            lo = I(a[1] + b[1])
        elif a == I(0) or b == I(0):
            lo = b if a == I(0) else a
        else:
            lo = ("bin", "Add") + ((a, b) if repr(a) <= repr(b) else (b, a))
        v = v[2][0]
    if lo in (None, I(0)) and hi is not None and hi[0] == "app" and hi[1] == "find" and hi[2][0] == v:
        return ("app", "before", hi[2])
    if hi is None and lo[0] == "bin" and lo[1] == "Add":
        f, n = (lo[2], lo[3]) if lo[3][0] == "i" else (lo[3], lo[2])
        if f[0] == "app" and f[1] == "find" and f[2][0] == v and f[2][1][0] == "s" and n == I(len(f[2][1][1].encode())):
            return ("app", "after", f[2])
    return ("app", "slice", (v, lo if lo is not None else I(0), hi if hi is not None else ("g", "end")))


_FROZEN = {}


def freeze(j):
    import json
    s = json.dumps(j, sort_keys=True)
    _FROZEN.setdefault(s, j)
    return s


def thaw(s):
    return _FROZEN.get(s)


def collect_refs(v, work):
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == "r":
        work.append(v[1])
        return
    if v[0] in ("i", "s", "b", "f", "arg", "g"):
        return
    for x in v:
        if isinstance(x, tuple):
            collect_refs(x, work)
        elif isinstance(x, frozenset):
            for y in x:
                collect_refs(y, work)


def collect_terms(v, out):
    if isinstance(v, frozenset):
        for y in v:
            collect_terms(y, out)
        return
    if not isinstance(v, tuple) or not v or v in out:
        return
    if v[0] in ("i", "s", "b", "f"):
        return
    out.add(v)
    for x in v:
        if isinstance(x, (tuple, frozenset)):
            collect_terms(x, out)


def any_sub(t, terms):
    """Does a fact's term speak about a value that is still around?"""
    if t[0] in ("discr", "not"):
        x = t[1]
        return x in terms or any_sub(x, terms)
    if t[0] == "fld":
        return t[1] in terms or any_sub(t[1], terms)
    if t[0] == "eq":
        return any_sub(t[1], terms) or t[1] in terms
    if t[0] in ("app",):
        return any(a in terms or any_sub(a, terms) for a in t[2] if isinstance(a, tuple) and is_sym(a))
    if t[0] in ("bin", "ovf"):
        return any(a in terms or any_sub(a, terms) for a in t[2:] if isinstance(a, tuple) and is_sym(a))
    if t[0] in ("idx",):
        return t[1] in terms
    return False


class Call:
    def __init__(self, an, st, fid, fn, t, cal, args, site, exp):
        self.an, self.st, self.fid, self.fn, self.t, self.cal, self.args, self.site, self.exp = an, st, fid, fn, t, cal, args, site, exp
        self.path = cal.get("rpath") or cal.get("path") or "?"
        self.tpath = cal.get("path") or "?"

    def with_state(self, st):
        return Call(self.an, st, self.fid, self.fn, self.t, self.cal, self.args, self.site, self.exp)

    def targs(self):
        return [self.an.p.tys(i) for i in self.cal.get("targs", [])]

    def argty(self, i):
        a = self.t.get("atys") or []
        return a[i] if i < len(a) else None

    def dest_ty(self):
        d = self.t["dest"]
        if d[1]:
            return d[2] if len(d) > 2 else None
        return self.fn["locals"][d[0]]

    def val(self, i):
        """Argument i, looked through mutable references."""
        v = self.args[i]
        n = 0
        while v[0] == "r" and n < 8:
            v = self.an.load(self.st, v[1], v[2])
            n += 1
        if is_sym(v):
            v = self.st.mem.get(("S", v), v)
        return v

    def deepargs(self):
        return tuple(self.an.deep(self.st, a) for a in self.args)

    def ret(self, v, ev=(), st=None):
        st = (st or self.st).copy()
        self.an.assign(st, self.fid, self.t["dest"], v)
        return [(list(ev), self.an.goto(st, self.t["to"]))]

    def write(self, st, i, v):
        """Write through reference argument i."""
        r = self.args[i]
        n = 0
        while r[0] == "r" and n < 8:
            cur = self.an.load(st, r[1], r[2])
            if cur[0] == "r":
                r = cur
                n += 1
                continue
            self.an.store(st, r[1], r[2], v)
            return
        if is_sym(r):
            st.mem[("S", r)] = v

    def fresh(self, st, kind="res", i=None):
        """A new symbol for this site; older incarnations are aged."""
        t = ("res", self.site) if i is None else ("out", self.site, i)
        self.age(st, t)
        return t

    def age(self, st, t):
        """Make room for a new incarnation of t; returns the event that tells automata to do the same."""
        k = 1
        if OLD_SLOTS > 1:
            used = set()

            def look(v):
                if v[0] == "old" and v[1] == t:
                    used.add(v[2])
                return False
            for v in st.mem.values():
                contains(v, look)
            free = [i for i in range(1, OLD_SLOTS + 1) if i not in used]
            k = free[0] if free else 1
        for loc, v in list(st.mem.items()):
            st.mem[loc] = age_value(v, t, k)
        facts = {}
        for f, x in st.facts.items():
            f2 = age_value(f, t, k)
            if f2 is f or not is_weak(f2):
                facts[f2] = x
        st.facts = facts
        return ("age", t, k)


class Graph:
    def __init__(self, an, key):
        self.an = an
        self.key = key
        self.states = []
        self.index = {}
        self.buckets = {}
        self.summary = {}
        self.edges = []
        self.done = set()
        self.masks = {}
        self.start = None
        self._out = None

    def new(self, st, key):
        n = len(self.states)
        self.states.append(st)
        self.index[key] = n
        return n

    def out(self):
        if self._out is None:
            self._out = {}
            for a, b, ev in self.edges:
                self._out.setdefault(a, []).append((b, ev))
        return self._out

    def events(self, kind=None):
        for a, b, ev in self.edges:
            for e in ev:
                if kind is None or e[0] == kind:
                    yield e

    def simulate(self, q0, step):
        """Property simulation: step(q, event) -> q' (or None to stop following), over every edge.
        Returns visited (node,q) pairs; the property code reports from inside step."""
        out = self.out()
        seen = {(self.start, q0)}
        work = [(self.start, q0)]
        parent = {(self.start, q0): None}
        while work:
            n, q = work.pop()
            for m, ev in out.get(n, []):
                q2 = q
                for e in ev:
                    if e[0] == "age":
                        q2 = age_value(q2, e[1], e[2]) if isinstance(q2, tuple) else q2
                        continue
                    q2 = step(q2, e)
                    if q2 is None:
                        break
                if q2 is None or m is None:
                    continue
                if (m, q2) not in seen:
                    seen.add((m, q2))
                    parent[(m, q2)] = (n, q)
                    work.append((m, q2))
        return seen
