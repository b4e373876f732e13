"""What every check shares: the programs, locating functions by what they are (public path, trait and
type), exploration with coverage counting, property simulation with traces, reporting."""
import hashlib
import json
import os
import re
import sys
import time

import absint
import extract
import models
from absint import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OK, ERR = 0, 1
OPTION, RESULT = "std::option::Option", "std::result::Result"


class Anchor(Exception):
    """Something the rule needs is not there: the check cannot decide and must not pass."""


class Programs:
    def __init__(self, release=False):
        f = extract.extract(release)
        self.server = Program(f["bsp_server"])
        self.types = Program(f["bsp_types"])
        for p in (self.server, self.types):
            p.rootset = set(p.roots)
        self.M = models.make()


def fld(v, var, i):
    return ("fld", v, var, i)


def ok(v):
    return fld(v, 0, 0)


def err(v):
    return fld(v, 1, 0)


def some(v):
    return fld(v, 1, 0)


def is_ret(e, variant):
    v = e[1]
    return v[0] == "a" and v[1] == RESULT and v[2] == variant


def head(s):
    return re.sub(r"<.*", "", s)


class Check:
    def __init__(self, pid, progs, tier):
        self.id = pid
        self.P = progs
        self.tier = tier
        self.viol = {}         # key -> (message, trace)
        self.obl = {}          # name -> bool
        self.cover = {"functions": set(), "call_sites": set(), "states": 0, "transitions": 0, "events": 0, "joins": 0, "roots": []}
        self.notes = []
        self.floors = []
        self.samples = []
        self.t0 = time.time()

    # ---- obligations and violations --------------------------------------------------------
    def ob(self, name, good=True, msg="", trace=None, key=None):
        """Record an obligation; a failed one is a violation with a line-free key."""
        self.obl[name] = self.obl.get(name, True) and bool(good)
        if not good:
            self.viol.setdefault(key or name, (msg or name, trace or []))
        return good

    def fail(self, key, msg, trace=None):
        self.ob(key, False, msg, trace)

    def floor(self, what, got, least):
        self.floors.append((what, got, least))
        if got < least:
            raise Anchor("%s: analysed %d, expected at least %d" % (what, got, least))

    # ---- exploring --------------------------------------------------------------------------
    def explore(self, p, key, args=None, opaque=None, maxstates=120, mem=None, facts=None, config=None, budget=60000):
        fn = p.fns.get(key)
        if fn is None:
            raise Anchor("no function " + str(key))
        an = Analyzer(p, self.P.M, opaque=opaque, maxstates=maxstates, budget=budget)
        an.key_of_root = key
        if config:
            for a, b in config.items():
                setattr(an, a, b)
        if args is None:
            args = [("arg", i) for i in range(fn["argc"])]
        try:
            g = an.explore(key, args, mem=mem, facts=facts)
        except Budget as e:
            raise Anchor(str(e))
        c = self.cover
        c["functions"].add(fn["path"])
        for k in an.stats["inlined"]:
            c["functions"].add(p.fns[k]["path"])
        for s in an.sites:
            c["call_sites"].add(an.site_desc(s))
        c["states"] += len(g.states)
        c["transitions"] += len(g.edges)
        c["joins"] += an.stats["joins"]
        c["roots"].append(fn["path"])
        return g

    def method_root(self, p, ty, name, generic=True):
        """The function `name` in an inherent impl of ty (path of the type inside its crate, or its last segment)."""
        c = []
        for k in p.roots:
            f = p.fns[k]
            path = re.sub(r"::<[^>]*>", "", f["path"])
            if path == ty + "::" + name or path.endswith("::" + ty + "::" + name):
                if not f["path"].startswith("<"):
                    c.append(k)
        if len(c) != 1:
            raise Anchor("%s::%s: found %d functions" % (ty, name, len(c)))
        return c[0]

    def trait_root(self, p, trait, item, ty):
        """The function `item` of the impl of `trait` for ty."""
        c = []
        for im in p.impls:
            if im["trait"].split("::")[-1] == trait or im["trait"] == trait:
                s = p.tys(im["self"])
                if s == ty or head(s) == ty or head(s).endswith("::" + ty):
                    up = im["items"].get(item)
                    c += [k for k in p._by_upath.get(up, []) if k in p.rootset]
        if len(c) != 1:
            raise Anchor("<%s as %s>::%s: found %d functions" % (ty, trait, item, len(c)))
        return c[0]

    def adt(self, p, name):
        c = [a for a in p.adts if a == name or a.endswith("::" + name)]
        if len(c) > 1:
            c = [a for a in c if a == name] or [a for a in c if not a.startswith("std::")]
        if len(c) != 1:
            raise Anchor("type %s: found %r" % (name, c))
        return c[0]

    def variants(self, p, adt):
        return [v["name"] for v in p.adts[adt]["variants"]]

    def fields(self, p, adt, var=0):
        return [f["name"] for f in p.adts[adt]["variants"][var]["fields"]]

    def field_index(self, p, adt, name, var=0):
        fs = self.fields(p, adt, var)
        if name not in fs:
            raise Anchor("type %s has no field %s" % (adt, name))
        return fs.index(name)

    # ---- property simulation -----------------------------------------------------------------
    def simulate(self, g, q0, step, name):
        """Run the property automaton `step(q, event, fail)` over the graph. fail(key, msg)
        records a violation with the path that reaches it."""
        out = g.out()
        start = (g.start, q0)
        parent = {start: None}
        work = [start]
        while work:
            cur = work.pop()
            n, q = cur
            for m, ev in out.get(n, []):
                qs = [q]
                for i, e in enumerate(ev):
                    nq = []
                    for q2 in qs:
                        if e[0] == "age":
                            nq.append(absint.age_value(q2, e[1], e[2]))
                            continue

                        def fail(key, msg, i=i):
                            self.fail(name + ": " + key, msg, self.trace(g, parent, cur, ev[: i + 1]))
                        self.cover["events"] += 1
                        r = step(q2, e, fail)
                        if r is None:
                            continue
                        nq += r if isinstance(r, list) else [r]
                    qs = nq
                    if not qs:
                        break
                if m is None:
                    continue
                for q2 in qs:
                    s = (m, q2)
                    if s not in parent:
                        parent[s] = (cur, ev)
                        work.append(s)
        if len(parent) > 400000:
            raise Anchor("property simulation too large")
        return parent

    def simulate_quiet(self, auto):
        """Run an automaton for what it collects; the obligations it would report belong to another property."""
        kept = dict(self.viol), dict(self.obl)
        auto.run()
        self.viol, self.obl = kept

    def trace(self, g, parent, cur, last):
        evs = [list(last)]
        while parent.get(cur):
            cur, ev = parent[cur]
            evs.append(list(ev))
        out = []
        for l in reversed(evs):
            for e in l:
                s = describe(g, e)
                if s and (not out or out[-1] != s):
                    out.append(s)
        return out[-60:]


def describe(g, e):
    an = g.an
    k = e[0]
    if k == "assume":
        if contains(e[1], lambda x: x[0] == "app" and x[1] == "noise"):
            return None
        return "assume %s %s %s" % (pv(an, e[1]), e[2], pv(an, e[3]) if isinstance(e[3], tuple) else sorted(pv(an, x) for x in e[3]))
    if k == "call":
        return "call %s(%s) at %s" % (e[1], ", ".join(pv(an, a) for a in e[3]), loc(an, e[5]))
    if k in ("write", "write_partial", "flush"):
        return "%s %s at %s" % (k, pv(an, e[2]) if e[2] else "", loc(an, e[4]))
    if k == "read":
        return "%s from %s at %s" % (e[1], pv(an, e[2]), loc(an, e[6]))
    if k == "ret":
        return "return %s" % pv(an, e[1])
    if k == "panic":
        return "panic %s %s at %s" % (e[1], e[2], loc(an, e[3]))
    if k == "key":
        return "input: %s" % ("member named %s" % pv(an, e[2]) if e[1] == "some" else e[1])
    if k == "tojson":
        return "%s(%s) at %s" % (e[1], pv(an, e[2]), loc(an, e[4]))
    if k == "buffered":
        return "%s::new(%s) at %s" % (e[1], pv(an, e[2]), loc(an, e[3]))
    if k in ("leak", "alloc", "maypanic"):
        return "%s %s at %s" % (k, e[1], loc(an, e[3]))
    return None


def loc(an, site):
    d = an.site_desc(site)
    return d.split(" > ")[-1] if d else "?"


def pv(an, v, d=0):
    """Readable value."""
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if k == "i":
        return str(v[1])
    if k == "s":
        return json.dumps(v[1])
    if k == "arg":
        return "arg%s" % (v[1],)
    if d > 7:
        return "..."
    if k == "res":
        return "result(%s)" % loc(an, v[1]).split(" (")[-1].rstrip(")")
    if k == "out":
        return "out(%s)" % loc(an, v[1]).split(" (")[-1].rstrip(")")
    if k == "fld":
        return "%s.%d.%d" % (pv(an, v[1], d + 1), v[2], v[3])
    if k == "app":
        return "%s(%s)" % (v[1].split("::")[-1], ", ".join(pv(an, x, d + 1) for x in v[2]))
    if k == "a":
        t = v[1] if isinstance(v[1], str) else "closure"
        name = t.split("::")[-1]
        a = an.p.adts.get(t) if isinstance(v[1], str) else None
        if a and a["kind"] == "enum" and v[2] < len(a["variants"]):
            name += "::" + a["variants"][v[2]]["name"]
        return "%s(%s)" % (name, ", ".join(pv(an, x, d + 1) for x in v[3]))
    if k == "alt":
        return "{%s}" % " | ".join(sorted(pv(an, x, d + 1) for x in v[1]))
    if k in ("eq", "bin"):
        return "%s(%s)" % (v[1] if k == "bin" else "eq", ", ".join(pv(an, x, d + 1) for x in v[1:] if isinstance(x, tuple)))
    return "%s(%s)" % (k, ", ".join(pv(an, x, d + 1) for x in v[1:] if isinstance(x, tuple)))


# ---- known findings ----------------------------------------------------------------------------
def known_findings(pid):
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as fh:
        for line in fh:
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\{.*?\}) (.*)$", line)
            if m and m.group(1) == pid:
                out[m.group(2)[1:-1]] = m.group(3)
    return out


def fresh(chk):
    """The violations that are not known findings."""
    known = known_findings(chk.id)
    return {k: v for k, v in chk.viol.items() if k not in known}


def finish(chk, explanation, assumptions, rule):
    """Write evidence, print the verdict, return the exit status."""
    known = known_findings(chk.id)
    fresh = {k: v for k, v in chk.viol.items() if k not in known}
    c = chk.cover
    cov = {
        "explanation": explanation,
        "rule": rule,
        "obligations": len(chk.obl),
        "discharged": sum(1 for v in chk.obl.values() if v),
        "functions_analysed": len(c["functions"]),
        "call_sites_analysed": len(c["call_sites"]),
        "abstract_states": c["states"],
        "abstract_transitions": c["transitions"],
        "events_checked": c["events"],
        "state_joins": c["joins"],
        "entry_points": sorted(set(c["roots"]))[:400],
        "configurations": ["development"] + (["release (no debug assertions, no overflow checks)"] if chk.tier == "thorough" else []),
        "floors": ["%s: %d (at least %d)" % f for f in chk.floors],
        "samples": (chk.samples or sorted(chk.obl)[:12])[:12],
        "known_findings_seen": sorted(k for k in chk.viol if k in known),
    }
    ev = {
        "property": chk.id, "tier": chk.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - chk.t0, 3), "violations": len(fresh),
    }
    edir = os.environ.get("BSP_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, chk.id + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    print("%s: %d obligations over %d functions, %d call sites, %d abstract states; %d fail" % (
        chk.id, len(chk.obl), cov["functions_analysed"], cov["call_sites_analysed"], cov["abstract_states"], len(chk.viol)))
    for k in sorted(chk.viol):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (chk.id, known[k]))
    for k in sorted(fresh):
        msg, trace = fresh[k]
        name = "%s-%s.txt" % (chk.id, hashlib.sha256(k.encode()).hexdigest()[:10])
        path = os.path.join(edir, name)
        with open(path, "w") as fh:
            fh.write("property %s\nviolation %s\n%s\n\npath:\n" % (chk.id, k, msg))
            for t in trace:
                fh.write("  " + t + "\n")
        print("violation: [%s] %s" % (k, msg))
        print("VIOLATION property=%s replay=%s" % (chk.id, path))
    return 1 if fresh else 0
