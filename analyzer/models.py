"""Meaning of the calls that leave the analysed program (std, crossbeam, serde, serde_json).

Every rule is about a resolved callee path. Anything not listed is opaque: its result is a
symbol, and what it could write through is forgotten.
"""
import re
from absint import *

HANDLE_ADTS = {
    "std::io::StdinLock", "std::io::StdoutLock", "std::io::Stdin", "std::io::Stdout", "std::net::TcpStream",
    "std::io::BufReader", "std::io::BufWriter", "std::fmt::Formatter", "std::io::Take", "crossbeam_channel::IntoIter",
    "crossbeam_channel::Iter", "std::io::LineWriter", "std::io::Stderr", "std::io::StderrLock",
}

_T = r"(::<.*>)?$"


def cat(*parts):
    out = []
    for p in parts:
        if p[0] in ("top", "undef"):
            return TOP
        ps = p[2] if p[0] == "app" and p[1] == "cat" else (p,)
        for q in ps:
            if q[0] == "b":
                try:
                    q = S(bytes(q[1]).decode())
                except Exception:
                    pass
            if q == S(""):
                continue
            if q[0] == "s" and out and out[-1][0] == "s":
                out[-1] = S(out[-1][1] + q[1])
            else:
                out.append(q)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    if len(out) > 24:
        return TOP
    return ("app", "cat", tuple(out))


def decode_template(b, args):
    """core::fmt's byte template -> list of parts, or None."""
    b = bytes(b)
    i = 0
    nxt = 0
    out = []
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(S(b[i:i + n].decode("utf-8", "replace")))
            i += n
        elif n == 0x80:
            l = int.from_bytes(b[i:i + 2], "little")
            i += 2
            out.append(S(b[i:i + l].decode("utf-8", "replace")))
            i += l
        else:
            opts = False
            if n & 1:
                i += 4
                opts = True
            if n & 2:
                i += 2
                opts = True
            if n & 4:
                i += 2
                opts = True
            ai = nxt
            if n & 8:
                ai = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if ai >= len(args):
                return None
            a = args[ai]
            nxt = ai + 1
            out.append(mk("fmtopts", a, I(n)) if opts else a)
    return out


STRINGY = ("str", "std::string::String")


def display(an, ty, v):
    t = an.p.types[an.p.peel(ty)] if ty is not None else None
    if t is not None and (t["k"] == "str" or (t["k"] == "adt" and t["path"] in ("std::string::String", "std::borrow::Cow"))):
        return v
    if v[0] == "s":
        return v
    if t is not None and t["k"] == "adt" and t["path"] in ("std::fmt::Arguments",):
        return v
    if v[0] == "i" and t is not None and t["k"] in ("int", "uint"):
        return S(str(v[1]))
    return mk("display", v)


class Models:
    def __init__(self):
        self.rules = []
        self.cache = {}

    def on(self, *pats):
        def deco(f):
            for p in pats:
                self.rules.append((re.compile(p), f))
            return f
        return deco

    def lookup(self, an, c):
        # the program's own functions are read, not modelled: an impl of a library's
        # trait for a library's type would otherwise pass for the library's
        own = c.an.p.own(c.cal.get("key"))
        key = (c.path, c.tpath, own)
        if key in self.cache:
            return self.cache[key]
        r = None
        for rx, f in self.rules:
            if (not own and rx.search(c.path)) or ((own or c.tpath != c.path) and rx.search(c.tpath)):
                r = f
                break
        self.cache[key] = r
        return r

    def post(self, an, st, hook, rv):
        return POST[hook](an, st, rv)

    # what happens at a call we know nothing about
    def default(self, c, pure=None):
        an = c.an
        st = c.st.copy()
        muts = []
        for i, a in enumerate(c.args):
            ty = c.argty(i)
            t = an.p.types[ty] if ty is not None else None
            if t is not None and t["k"] in ("ref", "ptr") and t.get("mut"):
                muts.append(i)
            elif a[0] == "r":
                muts.append(i)
        an.stats["opaque"][c.path] = an.stats["opaque"].get(c.path, 0) + 1
        ev = []
        deep = c.deepargs()
        if pure is None:
            pure = not muts and not EFFECT.search(c.path) and not EFFECT.search(c.tpath)
        if pure:
            res = ("app", c.path, deep)
            if any(x[0] in ("top", "undef") for x in deep):
                res = ("res", c.site)
                ev.append(c.age(st, res))
        else:
            res = ("res", c.site)
            ev.append(c.age(st, res))
        havoc = []
        for i in muts:
            if is_handle(c, i):
                continue
            t = ("out", c.site, i)
            ev.append(c.age(st, t))
            havoc.append((i, t))
        c2 = c.with_state(st)
        for _, t, k in ev:      # the arguments may name earlier incarnations
            deep = tuple(age_value(x, t, k) for x in deep)
        for i, t in havoc:
            c2.write(st, i, t)
        unit = False
        dt = c.dest_ty()
        if dt is not None:
            t = an.p.types[dt]
            if t["k"] == "tuple" and not t["args"]:
                unit = True
            if t["k"] == "never":
                return [([("panic", c.path, "", c.site, deep, dict(st.facts))], None)]
        ev.append(("call", c.path, c.tpath, deep, UNIT if unit else res, c.site, tuple(c.targs()), c.exp, dict(st.facts)))
        an.assign(st, c.fid, c.t["dest"], UNIT if unit else res)
        return [(ev, an.goto(st, c.t["to"]))]


def is_handle(c, i):
    an = c.an
    ty = c.argty(i)
    if ty is None:
        return False
    t = an.p.types[an.p.peel(ty)]
    if t["k"] in ("dyn", "param", "alias"):
        return True
    if t["k"] == "adt" and t["path"] in HANDLE_ADTS:
        return True
    return False


EFFECT = re.compile(
    r"Receiver.*::(recv|try_recv|recv_timeout|recv_deadline|try_iter|len|is_empty)|Sender.*::(send|try_send|send_timeout|send_deadline|len|is_full)"
    r"|std::io::(Read|Write|BufRead)::|::spawn|JoinHandle|::accept|::bind|TcpStream::|TcpListener::|::stdin|::stdout|::stderr|_print|_eprint"
    r"|bounded|unbounded|Instant::now|SystemTime|thread::|process::|std::fs::|std::env::|catch_unwind|Builder|Mutex|RwLock|Atomic|call-value"
    r"|MapAccess|SeqAccess|EnumAccess|VariantAccess|serde::Serializer::|serde::ser::Serialize|serde::Deserializer::|serde_json::(from_|to_writer)"
    r"|serde::Deserialize::deserialize|serde::Serialize::serialize|__private::de::missing_field|mem::forget|std::sync::|crossbeam_channel::(select|Select|after|tick|never)|dlsym|exit|abort"
)

M = Models()
POST = {}


def effect(c, ev_extra=()):
    return M.default(c, pure=False)


def ok_err(an, st, v):
    return v


# ---- identity on content -----------------------------------------------------------------
@M.on(r"std::clone::Clone::clone" + _T, r" as std::clone::Clone>::clone" + _T, r"<impl std::clone::Clone for .*>::clone" + _T)
def _(c):
    return c.ret(c.an.deep(c.st, c.args[0]))


@M.on(
    r"std::string::String::(as_str|as_bytes|into_bytes|into_boxed_str|as_mut_str)" + _T,
    r"(core::str|alloc::str|std::str)::<impl str>::(as_bytes|to_owned|to_string|into_string|into_boxed_bytes|to_vec|as_str)" + _T,
    r"std::borrow::(ToOwned::to_owned|Borrow::borrow)" + _T,
    r"std::hint::must_use" + _T, r"std::hint::black_box" + _T,
    r"std::vec::Vec::<T, A>::(as_slice|into_boxed_slice)" + _T,
    r"core::slice::<impl \[T\]>::(to_vec|into_vec|as_ref)" + _T, r"alloc::slice::<impl \[T\]>::(to_vec|into_vec)" + _T,
    r"std::boxed::Box::<T>::(new|from|pin|into_inner)" + _T, r"std::boxed::Box::<.*>::into_string",
    r"std::borrow::Cow::<'_, B>::into_owned", r"std::fmt::format" + _T, r"alloc::fmt::format" + _T,
    r"std::convert::identity", r"(^|::)Url::(as_str|into_string)$",
    r"std::sync::Arc::<T>::new", r"std::rc::Rc::<T>::new",
    r"Option::<&T>::(cloned|copied)", r"Option::<&mut T>::(cloned|copied)",
    r"std::boxed::Box::<T>::new_uninit$XX",
)
def _(c):
    v = c.val(0)
    return c.ret(v)


@M.on(r"std::option::Option::<T>::(as_ref|as_deref)" + _T)
def _(c):
    return c.ret(c.val(0))


@M.on(r"std::convert::AsRef::as_ref" + _T, r"std::ops::Deref::deref" + _T, r"as std::ops::Deref>::deref" + _T, r"as std::convert::AsRef<.*>>::as_ref" + _T)
def _(c):
    return c.ret(c.val(0))


@M.on(r"std::ops::DerefMut::deref_mut" + _T, r"std::convert::AsMut::as_mut" + _T, r"as std::ops::DerefMut>::deref_mut", r"std::vec::Vec::<T, A>::as_mut_slice",
      r"std::borrow::BorrowMut::borrow_mut" + _T)
def _(c):
    if c.args[0][0] == "r" and "deref_mut" in c.tpath:
        v = c.an.load(c.st, c.args[0][1], c.args[0][2])
        if v[0] == "r":                 # a guard, or a reference to a reference
            return c.ret(v)
    if c.args[0][0] == "r" or is_sym(c.args[0]):
        return c.ret(c.args[0])
    return None


@M.on(r"std::string::String.*as std::convert::From<.*>>::from", r"<impl std::convert::From<.*> for std::string::String>::from",
      r"<std::boxed::Box<.*> as std::convert::From<.*>>::from", r"as std::string::ToString>::to_string$XX",
      r"<std::borrow::Cow<.*> as std::convert::From<.*>>::from", r"<std::vec::Vec<.*> as std::convert::From<.*>>::from",
      r"<impl std::convert::From<.*> for std::boxed::Box<.*>>::from")
def _(c):
    return c.ret(c.val(0))


@M.on(r"^std::convert::(Into::into|From::from)" + _T)
def _(c):
    if c.cal.get("key") in c.an.p.fns:
        return None
    if c.path == c.tpath and not c.cal.get("rpath"):
        return c.ret(c.val(0))     # a conversion chosen by the caller (S: Into<String>)
    # resolved conversion outside the program: identity if the type does not change
    a = c.argty(0)
    d = c.dest_ty()
    if a is not None and a == d:
        return c.ret(c.val(0))
    return None


@M.on(r"^std::convert::(TryInto::try_into|TryFrom::try_from)")
def _(c):
    if c.cal.get("key") in c.an.p.fns:
        return None
    d, a = c.dest_ty(), c.argty(0)
    if d is not None and a is not None:
        m = re.match(r"std::result::Result<(u64|usize), ", c.an.p.tys(d))
        f = c.an.p.tys(c.an.p.peel(a))
        if m and f in ("u64", "usize"):       # the same 64 bits on the machines this is built for
            v = c.val(0)
            if m.group(1) != f and v[0] != "i":
                v = mk("cast:%s->%s" % (f, m.group(1)), v)
            return c.ret(("a", "std::result::Result", 0, (v,)))
    return c.an.models.default(c, pure=True)


@M.on(r"ToString>?::to_string" + _T)
def _(c):
    ty = c.argty(0)
    return c.ret(display(c.an, ty, c.val(0)))


# ---- strings and vectors -----------------------------------------------------------------
@M.on(r"std::string::String::(new|with_capacity)" + _T)
def _(c):
    ev = []
    if c.path.endswith("with_capacity"):
        ev = [("alloc", c.path, c.an.deep(c.st, c.args[0]), c.site, dict(c.st.facts))]
    return c.ret(S(""), ev)


@M.on(r"std::vec::Vec::<T.*>::(new|with_capacity|with_capacity_in|new_in)" + _T)
def _(c):
    ev = []
    if "with_capacity" in c.path:
        ev = [("alloc", c.path, c.an.deep(c.st, c.args[0]), c.site, dict(c.st.facts))]
    return c.ret(("a", "vec", 0, ()), ev)


@M.on(r"std::vec::from_elem" + _T)
def _(c):
    v = c.val(0)
    n = c.val(1)
    return c.ret(mk("vecof", v, n), [("alloc", c.path, n, c.site, dict(c.st.facts))])


@M.on(r"Vec::<T, A>::(reserve|reserve_exact)" + _T, r"String::(reserve|reserve_exact)" + _T)
def _(c):
    return c.ret(UNIT, [("alloc", c.path, c.an.deep(c.st, c.args[1]), c.site, dict(c.st.facts))])


@M.on(r"Vec::<T, A>::resize" + _T)
def _(c):
    st = c.st.copy()
    n = c.an.deep(st, c.args[1])
    v = c.val(0)
    c.with_state(st).write(st, 0, mk("resize", v, n, c.an.deep(st, c.args[2])))
    return c.ret(UNIT, [("alloc", c.path, n, c.site, dict(c.st.facts))], st)


@M.on(r"(Vec::<T, A>|String)::clear" + _T)
def _(c):
    st = c.st.copy()
    c.write(st, 0, S(""))
    return c.ret(UNIT, (), st)


@M.on(r"(Vec::<T, A>|String)::truncate" + _T)
def _(c):
    st = c.st.copy()
    n = c.an.deep(st, c.args[1])
    v = c.val(0)
    c.write(st, 0, S("") if n == I(0) else slice_of(v, I(0), n))
    ev = [("maypanic", "truncate", (v, n, n), c.site, dict(c.st.facts), "str")] if "String" in c.path and n != I(0) else []
    return c.ret(UNIT, ev, st)


@M.on(r"String::(push_str|push)" + _T, r"Vec::<T, A>::(extend_from_slice|append)" + _T, r"String::extend_from_within$XX")
def _(c):
    st = c.st.copy()
    if "Vec::<T" in c.path:
        r = gathered(c) or extended(c)
        if r is not None:
            return r
    a, b = c.val(0), c.an.deep(st, c.args[1])
    if b[0] == "i" and c.path.endswith("push"):
        b = S(chr(b[1]))
    if a == ("a", "vec", 0, ()):
        a = S("")
    c.write(st, 0, cat(a, b))
    return c.ret(UNIT, (), st)


@M.on(r"^<&?(?:'\w+ )?[iu](?:\d+|size) as std::ops::(?:Add|Sub|Mul)(?:Assign)?(?:<.*>)?>::\w+$")
def _(c):
    """Arithmetic through references: what the operator does, with its overflow check."""
    m = re.match(r"<&?(?:'\w+ )?([iu](?:\d+|size)) as std::ops::(Add|Sub|Mul)(Assign)?", c.path)
    st = c.st.copy()
    op = m.group(2)
    a, b = (c.val(0), c.val(1))
    v = c.an.binop(st, op, a, b)
    ev = []
    if v[0] != "i":
        ev.append(("panic", "assert", "Overflow(%s, _, _)" % op, c.site, ("ovf", op, a, b), dict(st.facts), m.group(1), (a, b)))
        c.an.sites.setdefault(c.site, c.t.get("span"))
    fail = [(ev, None)] if ev else []
    if m.group(3):
        c.write(st, 0, v)
        return fail + c.ret(UNIT, (), st)
    return fail + c.ret(v, (), st)


@M.on(r"std::ops::Add::add" + _T)
def _(c):
    if "String" in c.path and c.path != c.tpath:
        return c.ret(cat(c.val(0), c.an.deep(c.st, c.args[1])))
    return None


@M.on(r"std::ops::AddAssign::add_assign" + _T)
def _(c):
    if "String" in c.path and c.path != c.tpath:
        st = c.st.copy()
        c.write(st, 0, cat(c.val(0), c.an.deep(st, c.args[1])))
        return c.ret(UNIT, (), st)
    return None


def pushed(v, x):
    if v[0] == "a" and v[1] in ("vec", "array") and len(v[3]) < 12:
        return ("a", "vec", 0, v[3] + (x,))
    return mk("pushed", v, x)


@M.on(r"Vec::<T, A>::push" + _T)
def _(c):
    st = c.st.copy()
    c.write(st, 0, pushed(c.val(0), c.an.deep(st, c.args[1])))
    return c.ret(UNIT, (), st)


def elements(v):
    """The elements of a collection that is spelled out, else None."""
    if v[0] == "a":
        if v[1] == "std::option::Option":
            return v[3] if v[2] == 1 else ()
        if v[1] in ("vec", "array"):
            return v[3]
    if v[0] == "app" and re.search(r"(^|::)iter::once(::<.*>)?$", str(v[1])):
        return v[2]
    return None


def gathered(c):
    """Bytes that were read are appended in a loop: what they add up to is a value of its own, and the
    event tells a rule what was added to what."""
    ty = c.an.p.tys(c.an.p.peel(c.argty(0))) if c.argty(0) is not None else ""
    fr = c.st.stack[-1]
    if not ty.startswith("std::vec::Vec<u8") or c.path.endswith("append") or not c.an.in_loop(fr[1], fr[2]):
        return None
    if not contains(c.an.deep(c.st, c.args[1]), lambda x: x[0] in ("out", "res")):
        return None
    st = c.st.copy()
    new = ("out", c.site, 0)
    old, piece = c.val(0), c.an.deep(c.st, c.args[1])
    age = c.age(st, new)
    old, piece = (age_value(x, age[1], age[2]) for x in (old, piece))
    c2 = c.with_state(st)
    ev = ("gather", S("") if old == ("a", "vec", 0, ()) else old, piece, new, c.site, dict(st.facts))
    c2.write(st, 0, new)
    return c.ret(UNIT, [age, ev], st)


@M.on(r"<std::vec::Vec<.*> as std::iter::Extend<.*>>::extend" + _T, r"std::iter::Extend::extend" + _T)
def extended(c):
    ty = c.an.p.tys(c.an.p.peel(c.argty(0))) if c.argty(0) is not None else ""
    if ty.startswith("std::vec::Vec<u8"):
        t2 = c.an.p.tys(c.an.p.peel(c.argty(1))) if c.argty(1) is not None else ""
        if not re.match(r"std::vec::Vec<u8|\[u8", t2):
            return None
        st = c.st.copy()
        a, b = c.val(0), c.val(1)
        e = ("a", "vec", 0, ())
        c.write(st, 0, cat(S("") if a == e else a, S("") if b == e else b))
        if c.path.endswith("append"):
            c.write(st, 1, e)
        return c.ret(UNIT, (), st)
    xs = elements(c.an.deep(c.st, c.args[1]))
    if xs is None or not ty.startswith("std::vec::Vec<"):
        return None
    st = c.st.copy()
    v = c.val(0)
    for x in xs:
        v = pushed(v, x)
    c.write(st, 0, v)
    if c.path.endswith("append"):
        c.write(st, 1, ("a", "vec", 0, ()))
    return c.ret(UNIT, (), st)


@M.on(r"<impl \[T\]>::(concat|join)(::<.*>)?$")
def _(c):
    """Texts (or bytes) of a list that is spelled out, put together."""
    ty = c.an.p.tys(c.an.p.peel(c.argty(0))) if c.argty(0) is not None else ""
    xs = elements(c.an.deep(c.st, c.args[0]))
    if xs is None or not re.match(r"(\[|std::vec::Vec<)(&?(str|std::string::String|\[u8\]|std::vec::Vec<u8>|std::borrow::Cow<'_, str>)\b)", ty.replace("&'_ ", "&")):
        return None
    sep = c.an.deep(c.st, c.args[1]) if len(c.args) > 1 else S("")
    parts = []
    for i, x in enumerate(xs):
        parts += ([sep] if i else []) + [x]
    return c.ret(cat(*parts))


@M.on(r"Vec::<T, A>::insert" + _T)
def _(c):
    v = c.val(0)
    if c.an.deep(c.st, c.args[1]) != length(c.an, v):
        return None
    st = c.st.copy()
    c.write(st, 0, pushed(v, c.an.deep(st, c.args[2])))
    return c.ret(UNIT, (), st)


@M.on(r"(String|str|Vec::<T, A>|\[T\]>|<impl str>)::len" + _T)
def _(c):
    return c.ret(length(c.an, c.val(0)))


def length(an, v):
    if v[0] == "app" and v[1] == "resize":
        return v[2][1]
    if v[0] == "app" and v[1] == "vecof":
        return v[2][1]
    if v[0] == "app" and v[1] == "cat":
        r = I(0)
        for p in v[2]:
            r = an.binop1(None, "Add", r, length(an, p))
        return r
    if v[0] == "alt":
        return an.alt([length(an, x) for x in v[1]], ("len", v[2]))
    return an.length(v)


@M.on(r"(String|str|Vec::<T, A>|\[T\]>|<impl str>)::is_empty" + _T)
def _(c):
    return c.ret(c.an.mkeq(length(c.an, c.val(0)), I(0)))


@M.on(r"std::cmp::PartialEq::(eq|ne)" + _T, r"<impl std::cmp::PartialEq.*>::(eq|ne)" + _T, r"std::cmp::PartialEq.*>::(eq|ne)" + _T)
def _(c):
    # on borrowed or owned strings, integers, derived enums: structural equality of contents
    a, b = c.an.deep(c.st, c.args[0]), c.an.deep(c.st, c.args[1])
    if a[0] == "b":
        a = bytes_str(a)
    if b[0] == "b":
        b = bytes_str(b)
    e = c.an.mkeq(a, b)
    if re.search(r"::ne(::<.*>)?$", c.tpath):
        e = c.an.lnot(e, None, None)
    return c.ret(e)


def bytes_str(b):
    try:
        return S(bytes(b[1]).decode())
    except Exception:
        return b


@M.on(r"<impl str>::(starts_with|ends_with)" + _T)
def _(c):
    v, p = c.an.deep(c.st, c.args[0]), c.an.deep(c.st, c.args[1])
    if p[0] == "i":
        p = S(chr(p[1]))
    name = "starts_with" if "starts_with" in c.path else "ends_with"
    if v[0] == "s" and p[0] == "s":
        return c.ret(I(v[1].startswith(p[1]) if name == "starts_with" else v[1].endswith(p[1])))
    return c.ret(mk(name, v, p))


@M.on(r"<impl str>::(strip_prefix|strip_suffix)" + _T)
def _(c):
    v, p = c.an.deep(c.st, c.args[0]), c.an.deep(c.st, c.args[1])
    if p[0] == "i":
        p = S(chr(p[1]))
    pre = "strip_prefix" in c.path
    n = length(c.an, p)
    test = mk("starts_with" if pre else "ends_with", v, p)
    rest = slice_of(v, n, None) if pre else slice_of(v, None, c.an.binop1(None, "Sub", mk("len", v), n))
    return fork_option(c, test, rest)


def fork_option(c, test, some, none_first=False):
    """Return Some(some) when test holds, None otherwise."""
    an = c.an
    out = []
    for val, truth in ((some, 1), (None, 0)):
        s = c.st.copy()
        try:
            ev = an.assume(s, test, I(truth))
        except Infeasible:
            continue
        v = ("a", "std::option::Option", 1, (val,)) if truth else ("a", "std::option::Option", 0, ())
        for e, s2 in c.ret(v, ev, s):
            out.append((e, s2))
    return out


@M.on(r"<impl str>::(splitn|split|split_terminator)" + _T)
def _(c):
    if c.path.rstrip(">").endswith("splitn") or "::splitn" in c.path:
        n, sep = c.an.deep(c.st, c.args[1]), c.an.deep(c.st, c.args[2])
    else:
        n, sep = I(0), c.an.deep(c.st, c.args[1])
    if sep[0] == "i":
        sep = S(chr(sep[1]))
    v = c.an.deep(c.st, c.args[0])
    return c.ret(("a", "splititer", 0, (v, sep, n, I(0))))


@M.on(r"<impl str>::(split_once)" + _T)
def _(c):
    v, sep = c.an.deep(c.st, c.args[0]), c.an.deep(c.st, c.args[1])
    if sep[0] == "i":
        sep = S(chr(sep[1]))
    return fork_option(c, mk("contains", v, sep), ("a", "tuple", 0, (mk("before", v, sep), mk("after", v, sep))))


@M.on(r"<impl str>::contains" + _T)
def _(c):
    v, sep = c.an.deep(c.st, c.args[0]), c.an.deep(c.st, c.args[1])
    if sep[0] == "i":
        sep = S(chr(sep[1]))
    return c.ret(mk("contains", v, sep))


@M.on(r"<impl str>::find" + _T)
def _(c):
    v, sep = c.an.deep(c.st, c.args[0]), c.an.deep(c.st, c.args[1])
    if sep[0] == "i":
        sep = S(chr(sep[1]))
    if sep[0] != "s":
        return None
    return fork_option(c, mk("contains", v, sep), mk("find", v, sep))


@M.on(r"SplitN?<.*as std::iter::Iterator>::next" + _T, r"SplitN.*Iterator>::next")
def _(c):
    it = c.val(0)
    if not (it[0] == "a" and it[1] == "splititer"):
        return None
    v, sep, n, k = it[3]
    if k[0] != "i" or n[0] != "i":
        return None
    st = c.st.copy()
    c.write(st, 0, ("a", "splititer", 0, (v, sep, n, I(k[1] + 1))))
    c = c.with_state(st)
    if k[1] == 0:
        # the first piece always exists
        first = v if n == I(1) else mk("before", v, sep)
        return c.ret(("a", "std::option::Option", 1, (first,)), (), st)
    if n == I(2) and k[1] == 1:
        return fork_option(c, mk("contains", v, sep), mk("after", v, sep))
    if n[1] and k[1] >= n[1]:
        return c.ret(("a", "std::option::Option", 0, ()), (), st)
    return fork_option(c, mk("haspiece", v, sep, n, k), mk("piece", v, sep, n, k))


@M.on(r"std::ops::Not for &?bool>::not" + _T, r"<&?bool as std::ops::Not>::not" + _T)
def _(c):
    return c.ret(c.an.lnot(c.an.deep(c.st, c.args[0]), None, None))


@M.on(r"^std::ops::Not::not" + _T)
def _(c):
    ty = c.argty(0)
    if ty is not None and c.an.p.tys(c.an.p.peel(ty)) == "bool":
        return c.ret(c.an.lnot(c.an.deep(c.st, c.args[0]), None, None))
    return None


# ---- iterating over a collection whose elements are known ----------------------------------
@M.on(r"IntoIterator for [^>]*>::into_iter" + _T, r"(\[T; N\]|Vec<T, A>|\[T\]) as std::iter::IntoIterator>::into_iter" + _T, r"(<impl \[T\]>|\[T\]>?)::iter" + _T)
def _(c):
    v = c.an.deep(c.st, c.args[0])
    if v[0] == "a" and v[1] in ("array", "vec") and len(v[3]) <= 8:
        return c.ret(("a", "eachof", 0, v[3]))
    return None


@M.on(r"(array::IntoIter<.*>|vec::IntoIter<.*>|slice::Iter<.*>) as std::iter::Iterator>::next" + _T, r"slice::iter::<impl std::iter::Iterator for std::slice::Iter<.*>>::next")
def _(c):
    it = c.val(0)
    if not (it[0] == "a" and it[1] == "eachof"):
        return None
    if not it[3]:
        return c.ret(("a", "std::option::Option", 0, ()))
    st = c.st.copy()
    c.write(st, 0, ("a", "eachof", 0, it[3][1:]))
    return c.ret(("a", "std::option::Option", 1, (it[3][0],)), (), st)


@M.on(r"(array::IntoIter<.*>|vec::IntoIter<.*>|slice::Iter<.*>) as std::iter::Iterator>::\w+" + _T, r"slice::iter::<impl std::iter::Iterator for std::slice::Iter<.*>>::\w+")
def _(c):
    it = c.val(0)
    k = c.cal.get("dkey")
    if it[0] == "a" and it[1] == "eachof" and k in c.an.p.fns:
        return c.an.inline(c, k, c.args)
    return None


def seqkind(c):
    """What is indexed: str, seq, json, map or other."""
    ty = c.argty(0)
    if ty is None:
        return "other"
    t = c.an.p.types[c.an.p.peel(ty)]
    s = t["s"]
    if t["k"] == "str" or s == "std::string::String":
        return "str"
    if t["k"] in ("slice", "array") or s.startswith("std::vec::Vec<") or s.startswith("std::collections::VecDeque<"):
        return "seq"
    if s == "serde_json::Value":
        return "json mut" if "index_mut" in c.tpath else "json"
    return "other"


@M.on(r"<impl (str|\[T\])>::split_at(_mut)?" + _T)
def _(c):
    v, n = c.an.deep(c.st, c.args[0]), c.an.deep(c.st, c.args[1])
    ev = [("maypanic", "slice", (v, n, ("g", "end")), c.site, dict(c.st.facts), seqkind(c))]
    if "_mut" in c.path:
        return None
    return c.ret(("a", "tuple", 0, (slice_of(v, I(0), n), slice_of(v, n, None))), ev)


@M.on(r"std::ops::(Index::index|IndexMut::index_mut)" + _T, r"as std::ops::Index(Mut)?<.*>>::index(_mut)?" + _T, r"<impl str>::(get|get_mut|get_unchecked)" + _T)
def _(c):
    rng = c.an.deep(c.st, c.args[1])
    lo = hi = None
    base = c.val(0)
    ok = False
    if rng[0] == "a":
        n = rng[1]
        if n == "std::ops::Range" and len(rng[3]) == 2:
            lo, hi = rng[3]
            ok = True
        elif n == "std::ops::RangeTo":
            lo, hi = I(0), rng[3][0]
            ok = True
        elif n == "std::ops::RangeFrom":
            lo, hi = rng[3][0], None
            ok = True
        elif n == "std::ops::RangeFull":
            lo, hi = I(0), None
            ok = True
    if "::get" in c.path:
        return None
    if not ok:
        ev = [("maypanic", "index", (base, rng), c.site, dict(c.st.facts), seqkind(c))]
        return c.ret(("idx", base, rng) if is_sym(base) else TOP, ev)
    if hi is not None and hi == length(c.an, base):
        hi = None
    full = lo == I(0) and hi is None
    ev = [] if full else [("maypanic", "slice", (base, lo or I(0), hi if hi is not None else ("g", "end")), c.site, dict(c.st.facts), seqkind(c))]
    if c.tpath.endswith("index_mut") and c.args[0][0] == "r":
        r = c.args[0]
        return c.ret(r if full else ("r", r[1], r[2] + (("slice", lo, hi),)), ev)
    return c.ret(slice_of(base, lo, hi), ev)


@M.on(r"^std::default::Default::default" + _T, r"as std::default::Default>::default", r"<impl std::default::Default for .*>::default")
def _(c):
    if c.cal.get("key") in c.an.p.fns:
        return None
    dt = c.dest_ty()
    if dt is None:
        return None
    v = default_of(c.an, dt)
    return c.ret(v) if v is not None else None


def default_of(an, ty):
    t = an.p.types[ty]
    k = t["k"]
    if k in ("bool", "int", "uint", "char"):
        return I(0)
    if k == "ref":
        return S("") if an.p.types[t["to"]]["k"] == "str" else None
    if k == "tuple":
        vs = [default_of(an, x) for x in t["args"]]
        return ("a", "tuple", 0, tuple(vs)) if all(v is not None for v in vs) else None
    if k == "adt":
        if t["path"] == "std::string::String":
            return S("")
        if t["path"] == "std::vec::Vec":
            return ("a", "vec", 0, ())
        if t["path"] == "std::option::Option":
            return ("a", "std::option::Option", 0, ())
        if t["path"] == "serde_json::Value":
            return ("a", "serde_json::Value", an.p.variant("serde_json::Value", "Null") or 0, ())
        if t["path"] == "std::marker::PhantomData":
            return ("a", t["path"], 0, ())
    return None


@M.on(r"serde_json::Value::is_null" + _T)
def _(c):
    an = c.an
    v = c.val(0)
    n = an.p.variant("serde_json::Value", "Null") if "serde_json::Value" in an.p.adts else 0
    d = an.discr_val(c.st, v, c.argty(0))
    return c.ret(an.mkeq(d, I(n)) if d[0] != "altdiscr" else TOP)


# ---- memory ------------------------------------------------------------------------------
@M.on(r"std::mem::(take|replace)" + _T)
def _(c):
    st = c.st.copy()
    old = c.val(0)
    if c.path.split("::<")[0].endswith("take"):
        ty = c.argty(0)
        nv = default_of(c.an, c.an.p.types[ty]["to"]) if ty is not None else None
        if nv is None:
            return None
    else:
        nv = c.args[1]
    c.write(st, 0, nv)
    return c.ret(old, (), st)


@M.on(r"std::mem::swap" + _T)
def _(c):
    st = c.st.copy()
    a, b = c.val(0), c.val(1)
    c.write(st, 0, b)
    c.write(st, 1, a)
    return c.ret(UNIT, (), st)


@M.on(r"std::mem::drop" + _T)
def _(c):
    r = c.ret(UNIT, [("drop", c.an.deep(c.st, c.args[0]), c.argty(0))])
    if c.an.p.drops_own(c.argty(0)):
        # the block to go on with is where the frame stands now
        return [(ev + e, s2) for ev, s in r for e, s2 in c.an.destroy(s, c.args[0], c.argty(0), s.stack[-1][2])]
    return r


@M.on(r"std::boxed::Box::<T, A>::leak" + _T, r"Vec::<T, A>::leak" + _T, r"String::leak" + _T, r"Box::<T, A>::(into_raw|into_non_null)", r"std::mem::forget", r"ManuallyDrop::<T>::new",
      r"(Arc|Rc|Weak)::<T.*>::into_raw", r"CString::into_raw", r"(Vec|String).*::into_raw_parts", r"IntoRawFd>?::into_raw_fd", r"IntoRawSocket>?::into_raw_socket")
def _(c):
    return c.ret(c.val(0), [("leak", c.path, c.an.deep(c.st, c.args[0]), c.site, dict(c.st.facts))])


@M.on(r"std::boxed::Box::<T>::new_uninit" + _T)
def _(c):
    st = c.st.copy()
    st.mem[("N", c.site)] = UNDEF
    return c.ret(("r", ("N", c.site), ()), (), st)


@M.on(r"box_assume_init_into_vec_unsafe", r"Box::<.*>::assume_init")
def _(c):
    v = c.val(0)
    if v[0] == "a" and v[1] == "array":
        v = ("a", "vec", 0, v[3])
    return c.ret(v)


# ---- formatting --------------------------------------------------------------------------
@M.on(r"core::fmt::rt::Argument::<'_>::new_(\w+)", r"fmt::rt::Argument::.*::new_(\w+)")
def _(c):
    kind = re.search(r"new_(\w+)", c.path).group(1)
    ts = c.cal.get("targs", [])
    ty = ts[-1] if ts else None
    v = c.an.deep(c.st, c.args[0])
    return c.ret(display(c.an, ty, v) if kind == "display" else mk("fmt_" + kind, v))


@M.on(r"fmt::Arguments::<'a>::(new|new_const|new_v1)" + _T)
def _(c):
    tpl, args = c.args[0], c.val(1) if len(c.args) > 1 else ("a", "array", 0, ())
    a = args[3] if args[0] == "a" else ()
    if tpl[0] == "b":
        ps = decode_template(tpl[1], a)
        if ps is not None:
            return c.ret(cat(*ps))
    return c.ret(mk("fmtargs", tpl, args))


@M.on(r"fmt::Arguments::<'a>::from_str")
def _(c):
    return c.ret(c.val(0))


@M.on(r"fmt::Arguments::<'a>::as_str")
def _(c):
    return None


# ---- io ----------------------------------------------------------------------------------
def io_event(c, kind, sink, content):
    """An effect with an io::Result<()>-like result symbol."""
    st = c.st.copy()
    res = ("res", c.site)
    age = c.age(st, res)
    sink = c.an.deep(st, sink)
    content = c.an.deep(st, content) if content is not None else None
    ev = [age, (kind, sink, content, res, c.site, dict(st.facts))]
    c.an.assign(st, c.fid, c.t["dest"], res)
    c.an.stats["opaque"][c.path] = c.an.stats["opaque"].get(c.path, 0) + 1
    return [(ev, c.an.goto(st, c.t["to"]))]


def into_memory(c, v):
    """Writing into a Vec<u8>: its content grows, and that never fails."""
    ty = c.argty(0)
    if ty is None or c.an.p.tys(c.an.p.peel(ty)) not in ("std::vec::Vec<u8>", "std::vec::Vec<u8, std::alloc::Global>"):
        return None
    st = c.st.copy()
    old = c.val(0)
    if v is not None:
        c.write(st, 0, cat(S("") if old == ("a", "vec", 0, ()) else old, v))
    return c.ret(("a", "std::result::Result", 0, (UNIT,)), (), st)


@M.on(r"std::io::Write::(write_all|write_fmt)" + _T, r"as std::io::Write>::(write_all|write_fmt)" + _T)
def _(c):
    v = c.an.deep(c.st, c.args[1])
    if v[0] == "b":
        v = bytes_str(v)
    return into_memory(c, v) or io_event(c, "write", c.args[0], v)


@M.on(r"std::io::Write::(write|write_vectored)" + _T, r"as std::io::Write>::(write|write_vectored)" + _T)
def _(c):
    return io_event(c, "write_partial", c.args[0], c.an.deep(c.st, c.args[1]))


@M.on(r"std::io::Write::flush" + _T, r"as std::io::Write>::flush" + _T)
def _(c):
    return into_memory(c, None) or io_event(c, "flush", c.args[0], None)


@M.on(r"serde_json::to_writer(_pretty)?" + _T)
def _(c):
    r = mk("serde_json::to_string", c.an.deep(c.st, c.args[1]))
    ty = c.argty(0)
    if ty is not None and r[0] == "app" and not c.path.endswith("_pretty") and c.an.p.tys(c.an.p.peel(ty)) in ("std::vec::Vec<u8>", "std::vec::Vec<u8, std::alloc::Global>"):
        # into memory: the whole text when it succeeds, some of it when not
        e = ("tojson", "to_string", c.an.deep(c.st, c.args[1]), r, c.site, tuple(c.targs())[1:])
        old = c.val(0)
        old = S("") if old == ("a", "vec", 0, ()) else old
        out = []
        for d in (0, 1):
            st = c.st.copy()
            known = st.facts.get(("discr", r))
            if known is not None and known != ("=", I(d)):
                continue
            st.facts[("discr", r)] = ("=", I(d))
            if d == 0:
                c.write(st, 0, cat(old, ("fld", r, 0, 0)))
                out += c.ret(("a", "std::result::Result", 0, (UNIT,)), [e, ("assume", ("discr", r), "=", I(0))], st)
            else:
                c.write(st, 0, TOP)
                out += c.ret(("a", "std::result::Result", 1, (("fld", r, 1, 0),)), [e, ("assume", ("discr", r), "=", I(1))], st)
        return out
    return io_event(c, "write", c.args[0], ("fld", r, 0, 0) if r[0] == "app" else TOP)


@M.on(r"std::io::BufRead::(read_line|read_until)" + _T, r"as std::io::BufRead>::(read_line|read_until)" + _T,
      r"std::io::Read::(read_to_end|read_to_string|read_exact|read|read_buf)" + _T, r"as std::io::Read>::(read_to_end|read_to_string|read_exact|read)" + _T,
      r"std::io::copy" + _T)
def _(c):
    name = re.search(r"::(read_\w+|read|copy)(::<.*>)?$", c.tpath).group(1)
    if name == "copy":
        ty = c.argty(1)
        if ty is None or c.an.p.tys(c.an.p.peel(ty)) not in ("std::vec::Vec<u8>", "std::vec::Vec<u8, std::alloc::Global>"):
            return None
        name = "read_to_end"         # copying into memory: all that the reader has left
    bi = len(c.args) - 1
    st = c.st.copy()
    src = c.an.deep(st, c.args[0])
    old = c.val(bi)
    if old == ("a", "vec", 0, ()):
        old = S("")
    out = ("out", c.site, bi)
    res = ("res", c.site)
    ev = []
    for t in (out, res):
        ev.append(c.age(st, t))
    c2 = c.with_state(st)
    old2 = c2.val(bi)
    want = None
    if name in ("read_line", "read_until", "read_to_end", "read_to_string"):
        if old2 == ("a", "vec", 0, ()):
            old2 = S("")
        new = cat(old2, out)
        if name == "read_until":
            want = c.an.deep(c.st, c.args[1])
    else:
        want = length(c.an, old2)
        new = ("app", "filled", (out, want)) if want[0] not in ("top", "undef") else out
    c2.write(st, bi, new)
    ev.append(("read", name, src, old, new, res, c.site, want, dict(st.facts)))
    if name == "read" and want is not None and want[0] not in ("top", "undef"):
        most = ("bin", "Lt", want, ("fld", res, 0, 0))       # never more than there is room for
        st.facts[most] = ("=", I(0))
        ev.append(("assume", most, "=", I(0)))
    c.an.assign(st, c.fid, c.t["dest"], res)
    c.an.stats["opaque"][c.path] = c.an.stats["opaque"].get(c.path, 0) + 1
    return [(ev, c.an.goto(st, c.t["to"]))]


@M.on(r"std::io::Read::take" + _T, r"as std::io::Read>::take")
def _(c):
    return c.ret(mk("take", c.an.deep(c.st, c.args[0]), c.an.deep(c.st, c.args[1])))


@M.on(r"std::io::Take::<T>::limit" + _T)
def _(c):
    return c.ret(mk("limit", c.an.deep(c.st, c.args[0])))


@M.on(r"std::io::(Read::by_ref|Write::by_ref)" + _T)
def _(c):
    return c.ret(c.args[0])


@M.on(r"std::io::BufReader::<R>::(new|with_capacity)" + _T)
def _(c):
    inner = c.an.deep(c.st, c.args[-1])
    ev = [("alloc", c.path, c.an.deep(c.st, c.args[0]), c.site, dict(c.st.facts))] if len(c.args) > 1 else []
    return c.ret(mk("BufReader", inner), [("buffered", "BufReader", inner, c.site)] + ev)


@M.on(r"std::io::(BufWriter|LineWriter)::<W>::(new|with_capacity)" + _T)
def _(c):
    inner = c.an.deep(c.st, c.args[-1])
    return c.ret(mk("BufWriter", inner), [("buffered", "BufWriter", inner, c.site)])


@M.on(r"std::io::(stdin|stdout|stderr)$")
def _(c):
    return c.ret(("g", "std::io::" + c.path.rsplit("::", 1)[1]))


@M.on(r"std::io::(Stdin|Stdout|Stderr)::lock")
def _(c):
    return c.ret(c.an.deep(c.st, c.args[0]))


@M.on(r"std::io::_print$")
def _(c):
    return c.ret(UNIT, [("print", "stdout", c.an.deep(c.st, c.args[0]), c.site)])


@M.on(r"std::io::_eprint$")
def _(c):
    return c.ret(UNIT, [("print", "stderr", c.an.deep(c.st, c.args[0]), c.site)])


@M.on(r"(core::str|std::str|std::string::String|<impl str>)::from_utf8_unchecked")
def _(c):
    v = c.val(0)
    text = v[0] == "s" or contains(v, lambda x: x[0] == "app" and x[1] == "serde_json::to_string") or v[0] == "app" and v[1] in ("display", "cat", "lower", "upper")
    return c.ret(v if text else mk("unchecked_utf8", v))


# ---- JSON --------------------------------------------------------------------------------
@M.on(r"serde_json::(to_string|to_vec|to_value|to_string_pretty)" + _T, r"serde_json::value::to_value")
def _(c):
    name = re.search(r"::(to_\w+)", c.path).group(1)
    if name in ("to_vec",):
        name = "to_string"
    v = c.an.deep(c.st, c.args[0])
    r = mk("serde_json::" + name, v)
    if r[0] != "app":
        return None
    if name == "to_value" and re.sub(r"^(&('\w+ )?)+", "", (c.targs() or [""])[0]) == "serde_json::Value":
        return c.ret(("a", "std::result::Result", 0, (v,)), [("tojson", name, v, r, c.site, tuple(c.targs()))])  # a JSON value is its own JSON
    return c.ret(r, [("tojson", name, v, r, c.site, tuple(c.targs()))])


@M.on(r"serde_json::(from_str|from_slice|from_value|from_reader)" + _T)
def _(c):
    return M.default(c, pure=False)


# ---- serde: decoding drives the visitor the program supplies -------------------------------
def impl_fn(p, trait_suffix, item, selfty_s):
    """Key of the identity-instantiated body of <selfty as trait>::item."""
    for im in p.impls:
        if im["trait"].endswith(trait_suffix) and p.tys(im["self"]) == selfty_s:
            up = im["items"].get(item)
            if up:
                ks = p._by_upath.get(up, [])
                ks = [k for k in ks if k in p.rootset] or ks
                if ks:
                    return ks[0]
    # generics / lifetimes: compare on the head of the type
    h = re.sub(r"<.*", "", selfty_s)
    c = []
    for im in p.impls:
        if im["trait"].endswith(trait_suffix) and re.sub(r"<.*", "", p.tys(im["self"])) == h:
            up = im["items"].get(item)
            if up:
                ks = [k for k in p._by_upath.get(up, []) if k in p.rootset]
                c += ks
    return c[0] if len(c) == 1 else None


STRINGS = ("std::string::String", "&str", "std::borrow::Cow<'_, str>", "std::borrow::Cow<'de, str>", "&'de str", "&'_ str")
VISIT = {
    "deserialize_struct": ["visit_map"], "deserialize_map": ["visit_map"], "deserialize_identifier": ["visit_str"],
    "deserialize_str": ["visit_str"], "deserialize_string": ["visit_string", "visit_str"],
    **{"deserialize_" + n: ["visit_u64"] for n in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64")},
}


@M.on(r"^serde::Deserializer::deserialize_(\w+)" + _T, r"as serde::Deserializer<.*>>::deserialize_(\w+)" + _T, r"serde::Deserializer<.*> for .*>::deserialize_(\w+)" + _T)
def _(c):
    an = c.an
    kind = re.search(r"(deserialize_\w+)", c.tpath).group(1)
    vis = c.args[-1]
    vt = c.argty(len(c.args) - 1)
    if vt is None:
        return None
    vs = an.p.tys(vt)
    ev = [("deser", kind, an.deep(c.st, c.args[0]), tuple(an.deep(c.st, a) for a in c.args[1:-1]), vs, c.site)]
    if kind == "deserialize_any":
        cand = an.config_any if hasattr(an, "config_any") else []
    else:
        cand = VISIT.get(kind, [])
    for m in cand:
        k = impl_fn(an.p, "Visitor", m, vs)
        if k:
            acc = ("arg", "access") if m == "visit_map" else mk("numof", c.args[0]) if m == "visit_u64" else string_of(an, c.args[0])
            r = an.inline(c, k, [vis, acc])
            return [(ev + e, s) for e, s in r]
    out = M.default(c, pure=False)
    return [(ev + e, s) for e, s in out]


def string_of(an, d):
    return mk("strof", d) if not (d[0] == "app" and d[1] == "keyde") else d[2][0]


@M.on(r"^serde::de::MapAccess::next_key" + _T, r"^serde::de::MapAccess::next_entry" + _T)
def _(c):
    an = c.an
    ts = c.cal.get("targs", [])
    kt = an.p.tys(ts[-1] if "next_key" in c.tpath else ts[-2])
    res = ("res", c.site)
    out = []
    st = c.st.copy()
    age = c.age(st, res)
    c2 = c.with_state(st)
    acc = an.deep(st, c.args[0])
    # the input ends / is malformed / has another member, whose name is the symbol `res`
    out += c2.ret(("a", "std::result::Result", 0, (("a", "std::option::Option", 0, ()),)), [age, ("key", "end", None, c.site)])
    out += c2.ret(("a", "std::result::Result", 1, (("app", "input-error", (I(c.site),)),)), [age, ("key", "err", None, c.site)])
    ev = [age, ("key", "some", res, c.site, kt)]
    if "next_entry" in c.tpath:
        val = ("app", "entry-value", (res,))
        ev.append(("call", "serde::de::MapAccess::next_value", "serde::de::MapAccess::next_value", (acc,), val, c.site, (an.p.tys(ts[-1]),), c.exp, dict(st.facts)))
        some = ("a", "std::option::Option", 1, (("a", "tuple", 0, (res if kt in STRINGS else mk("keyof", res), ("fld", val, 0, 0))),))
        out += c2.ret(("a", "std::result::Result", 0, (some,)), ev + [("assume", ("discr", val), "=", I(0))])
        out += c2.ret(("a", "std::result::Result", 1, (("fld", val, 1, 0),)), ev + [("assume", ("discr", val), "=", I(1))])
        return out
    k = impl_fn(an.p, "Deserialize", "deserialize", kt)
    if k:
        for e, s in an.inline(c2, k, [("app", "keyde", (res,))], post="some"):
            out.append((ev + e, s))
    elif kt in STRINGS:
        out += c2.ret(("a", "std::result::Result", 0, (("a", "std::option::Option", 1, (res,)),)), ev)
    else:
        out += c2.ret(("a", "std::result::Result", 0, (("a", "std::option::Option", 1, (mk("keyof", res),)),)), ev)
    return out


# ---- values kept between calls -----------------------------------------------------------------
@M.on(r"std::thread::LocalKey::<T>::with(::<.*>)?$", r"std::thread::LocalKey::<std::cell::RefCell<T>>::(with_borrow|with_borrow_mut)(::<.*>)?$")
def _(c):
    an = c.an
    st = c.st.copy()
    name = ("g", "kept:" + repr(an.deep(st, c.args[0])))
    loc = ("S", name)
    if loc not in st.mem:
        st.mem[loc] = ("app", "kept", (name,))      # whatever an earlier call left there
    r = ("r", loc, ())
    return an.call_value(c.with_state(st), c.args[1], c.args[1], ("a", "tuple", 0, (r,)))


@M.on(r"std::cell::RefCell::<T>::(borrow|borrow_mut|get_mut)$")
def _(c):
    if c.args[0][0] == "r":
        return c.ret(c.args[0], [("call", c.path, c.tpath, c.deepargs(), ("app", "guard", ()), c.site, (), c.exp, dict(c.st.facts))])
    return None


@M.on(r"std::sync::(Mutex::<T>::lock|RwLock::<T>::write)$")
def _(c):
    """What is written through the guard lands in a cell that outlives the function."""
    an = c.an
    out = []
    for ev, s in M.default(c, pure=False):
        res = an.read(s, c.fid, c.t["dest"])
        if res[0] != "res":
            return None
        loc = ("S", ("fld", res, 0, 0))
        for d in (0, 1):
            s2 = s.copy()
            try:
                a = an.assume(s2, ("discr", res), I(d))
            except Infeasible:
                continue
            if d == 0:
                s2.mem[loc] = ("app", "guarded", (res,))
                an.assign(s2, c.fid, c.t["dest"], ("a", "std::result::Result", 0, (("r", loc, ()),)))
            else:
                an.assign(s2, c.fid, c.t["dest"], ("a", "std::result::Result", 1, (("fld", res, 1, 0),)))
            out.append((list(ev) + list(a), s2))
    return out


@M.on(r"std::sync::PoisonError::<T>::(into_inner|get_mut)$")
def _(c):
    v = c.val(0)
    if v[0] == "fld" and v[1][0] == "res":
        st = c.st.copy()
        loc = ("S", ("fld", v[1], 0, 0))
        st.mem[loc] = ("app", "guarded", (v[1],))
        return c.ret(("r", loc, ()), (), st)
    return None


def read_through(p, ty):
    """A type that is read by reading another one and wrapping it, as serde's deserialize_with makes them:
    (type read, result of reading it, the wrapped value), else None."""
    memo = p.__dict__.setdefault("_read_through", {})
    if ty not in memo:
        memo[ty] = None
        k = impl_fn(p, "Deserialize", "deserialize", ty)
        if k and "__DeserializeWith" in ty:
            det = re.compile(r"Deserialize::deserialize$")
            an = Analyzer(p, M, opaque=lambda c, an: bool(det.search(c.tpath)), maxstates=200)
            try:
                g = an.explore(k, [("arg", 0)])
            except Budget:
                return None
            reads = {(e[4], e[6][0]) for e in g.events("call") if det.search(e[2]) and e[3] and e[3][0] == ("arg", 0)}
            good = set()
            for e in g.events():
                if e[0] == "ret":
                    v = e[1]
                    if v[0] == "a" and v[1] == "std::result::Result" and len(reads) == 1:
                        r = next(iter(reads))[0]
                        w = v[3][0]
                        if v[2] == 1 and w == ("fld", r, 1, 0):
                            continue
                        if v[2] == 0 and w[0] == "a" and w[3] and w[3][0] == ("fld", r, 0, 0):
                            good.add(w)
                            continue
                    good.add(None)
                elif e[0] not in ("call", "assume", "age", "drop"):
                    good.add(None)
            if len(reads) == 1 and len(good) == 1 and None not in good:
                r, t = next(iter(reads))
                memo[ty] = (t, r, next(iter(good)))
    return memo[ty]


@M.on(r"^serde::de::MapAccess::next_value" + _T)
def _(c):
    an = c.an
    ts = c.targs()
    rt = read_through(an.p, ts[-1]) if ts else None
    if rt is None:
        return M.default(c, pure=False)
    ty, r0, w = rt
    out = []
    for n, s in M.default(c, pure=False):
        res = an.read(s, c.fid, c.t["dest"])
        ev = [e[:6] + (tuple(e[6][:-1]) + (ty,),) + e[7:] if e[0] == "call" and e[4] == res else e for e in n]
        for d in (0, 1):
            s2 = s.copy()
            try:
                a = an.assume(s2, ("discr", res), I(d))
            except Infeasible:
                continue
            v = ("a", "std::result::Result", d, ((subst(w, r0, res) if d == 0 else ("fld", res, 1, 0)),))
            an.assign(s2, c.fid, c.t["dest"], v)
            out.append((ev + list(a), s2))
    return out


def post_some(an, st, rv):
    OPT, RES = "std::option::Option", "std::result::Result"
    vs = rv[1] if rv[0] == "alt" else [rv]
    out = []
    for v in vs:
        if v[0] == "a" and v[1] == RES:
            if v[2] == 0:
                out.append(("a", RES, 0, (("a", OPT, 1, (v[3][0],)),)))
            else:
                out.append(v)
        elif is_sym(v):
            out.append(("a", RES, 0, (("a", OPT, 1, (("fld", v, 0, 0),)),)))
            out.append(("a", RES, 1, (("fld", v, 1, 0),)))
        else:
            out.append(TOP)
    return out


POST["some"] = post_some


@M.on(r"^serde::__private::de::missing_field" + _T)
def _(c):
    ts = c.targs()
    ty = ts[0] if ts else ""
    if re.match(r"(std|core)::option::Option<", ty):
        return c.ret(("a", "std::result::Result", 0, (("a", "std::option::Option", 0, ()),)))
    if "::" in ty or ty in ("bool", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64"):
        return c.ret(("a", "std::result::Result", 1, (("app", "missing_field", tuple(c.deepargs())),)))
    return M.default(c, pure=False)


def make():
    return M
