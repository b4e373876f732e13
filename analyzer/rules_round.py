"""C30 what is written can be read back as the same value: encoder and decoder of one type against each other."""
from rules_values import *
import rules_wire


def both_ways(p):
    """The local types with an encoder and a decoder."""
    def of(trait):
        return {head(p.tys(im["self"])) for im in p.impls if im["trait"].split("::")[-1] == trait}
    return sorted(t for t in of("Serialize") & of("Deserialize") if t in p.adts and p.adts[t]["local"])


class Reader(ObjectDecoder):
    """Collects how objects are read; what is wrong with reading as such belongs to other properties."""

    def __init__(self, chk, p, ty, names):
        self.oks, self.refused = [], set()
        super().__init__(chk, p, type_impl(chk, p, "Deserialize", "deserialize", ty), ty.split("::")[-1] + " decoder", names, (), self.ok)

    def ok(self, d, pay, fail):
        self.oks.append((d, pay))

    def judge_err(self, q, e, fail):
        phase, cur, kn, mem, subs = q
        if phase == "end" and not any(possible(kn, r, 2) == {1} for r, _, _ in subs) and not any(e[1] == r for r, _, _ in subs):
            self.refused.add(frozenset(n for n, _ in mem))


def blank(p, kn, f, ty):
    """Is the field known to be empty, as its type has it: True / False / None."""
    if ty.startswith(OPTION + "<"):
        return empty(p, kn, f, "option")
    if re.match(r"(std|alloc)::string::String$", ty):
        return empty(p, kn, f, "string")
    if re.match(r"(std|alloc)::vec::Vec<", ty):
        return empty(p, kn, f, "vec")
    if ty.endswith("serde_json::Value"):
        return empty(p, kn, f, "null")
    if ty == "bool":
        return holds(kn, f, I(0))
    a = p.adts.get(ty)
    if a and a["kind"] == "enum":
        vs = [v["name"] for v in a["variants"]]
        if "None" in vs:
            return empty(p, kn, f, ("variant", vs.index("None"), len(vs)))
    return None


def check_round(chk):
    n = m = 0
    for p in (chk.P.types, chk.P.server):
        for ty in both_ways(p):
            short = ty.split("::")[-1]
            a = p.adts[ty]
            if a["kind"] != "struct" or len(a["variants"]) != 1:
                continue
            fs = a["variants"][0]["fields"]
            g, outs = quiet(chk, lambda: encodings(chk, p, type_impl(chk, p, "Serialize", "serialize", ty), short + " encoder", maxstates=200000))
            objs = [o for o in outs if o.form[0] == "object"]
            if not objs or not all(isinstance(x, str) for o in objs for x, _ in o.form[1]):
                continue                    # no object: a code, a tag or an id
            names = {x for o in objs for x, _ in o.form[1]}
            R = Reader(chk, p, ty, names)
            quiet(chk, lambda: R.run())
            if not R.oks:
                chk.fail("%s: can be read" % short, "no path of its decoder accepts anything")
                continue
            n += 1
            by = {}
            for d, pay in R.oks:
                by.setdefault(frozenset(d.members), []).append((d, pay))
            for o in objs:
                W = frozenset(x for x, _ in o.form[1])
                if W in R.refused or W not in by:
                    chk.fail("%s: an object it writes is refused" % short, "members written: %s; left out: %s" % (", ".join(sorted(W)) or "none", ", ".join(sorted(names - W)) or "none"))
                    continue
                src = {}
                for x, v in o.form[1]:
                    for i in range(len(fs)):
                        f = fld(ARG0, 0, i)
                        if v in (f, fld(f, 1, 0)):
                            src.setdefault(i, []).append(x)
                for d, pay in by[W]:
                    if pay[0] != "a" or pay[1] != ty:
                        chk.fail("%s: cannot tell what is read" % short, pv(R.an, pay))
                        continue
                    for i, fd in enumerate(fs):
                        m += 1
                        v, f, ft = pay[3][i], fld(ARG0, 0, i), p.tys(fd["ty"])
                        if i in src:
                            good = any(decoded_from(R, d, v, d.members[x]) for x in src[i])
                            chk.ob("%s: %s is read back from the member it is written to" % (short, fd["name"]), good, "written as %s, read from %s" % (", ".join(src[i]), pv(R.an, v)))
                        elif any(contains(x, lambda y: y == f) for _, x in o.form[1]):
                            continue        # written in a form of its own
                        else:
                            same = equals(p, o.kn, v, f) or empty_value(p, v, ft) is not False and blank(p, o.kn, f, ft) is True
                            chk.ob("%s: %s is read back as it was when it is left out" % (short, fd["name"]), same, "left out by the encoder, read as %s" % pv(R.an, v))
    chk.floor("types written and read", n, 40)
    chk.floor("members compared", m, 200)
