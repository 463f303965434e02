"""Rule toolkit: run entry points, query their value-flow graph, record obligations and evidence."""
import json
import os
import re
import sys
import time
import traceback

import eng
import facts
import terms as tm
from eng import NONE, some, UNIT, ref, tup
from terms import (A, C, ONE, P, T, ZERO, b_and, b_not, b_or, eq0, is_bool, ite, le0, lift, lt0, map_at, map_has, mk,
                   mkany, mksum, p_inds, pabs, padd, pdiv, pmax, pmin, pmul, proj, pscale, show, subst, subterms)

sys.setrecursionlimit(200000)

_F = None
_E = None
_R = {}


def F():
    global _F
    if _F is None:
        _F = facts.load()
    return _F


def E():
    global _E
    if _E is None:
        _E = eng.Engine(F())
    return _E


class Missing(Exception):
    """an anchor the rule needs is not in the analysed program"""


# ---------------------------------------------------------------- entry points
def blueprint_impl(crate):
    """bodies of the blueprint implementation of a crate (exported functions and methods)"""
    return [b for b in F().bodies.values()
            if b.crate == crate and b.kind == "fn" and b.impl and "ObjectStub" not in b.impl and
            "Functions" not in b.impl and "_test" not in b.k and not E().stub_of(b)]


BP = {"account": "MarginAccount", "config": "Config", "env_registry": "EnvRegistry", "exchange": "Exchange",
      "faucet": "Faucet", "fee_delegator": "FeeDelegator", "fee_distributor": "FeeDistributor", "oracle": "Oracle",
      "permission_registry": "PermissionRegistry", "pool": "MarginPool", "referral_generator": "ReferralGenerator",
      "token_wrapper": "TokenWrapper"}


def find(crate, name, impl=None):
    impl = impl or BP.get(crate)
    c = [b for b in blueprint_impl(crate) if b.name == name and not b.tr and
         (impl is None or b.impl.split("<")[0].split("::")[-1] == impl)]
    if len(c) != 1:
        raise Missing("%s::%s%s: %d candidates" % (crate, (impl + "::") if impl else "", name, len(c)))
    return c[0]


def literals(given):
    """facts (boolean polynomials that hold in the case under analysis) -> {indicator: 0/1}"""
    st = eng.State()
    for p in given:
        p = assume_(p, st.known)
        if not p.d:
            raise ValueError("contradictory case")
        n = len(st.known)
        E().learn(st, p)
        if p is not ONE and len(st.known) == n:
            raise ValueError("fact is not a conjunction of literals: %s" % show(p, 6))
    return dict(st.known)


def assume_(p, known):
    for a, v in known.items():
        p = tm.cof(p, a, v)
    return p


class given:
    """with given(facts): terms built inside are simplified under the facts"""
    def __init__(self, known, vals=()):
        self.k = known if isinstance(known, dict) else literals(known)
        self.v = dict(vals)

    def __enter__(self):
        self.old = dict(tm.KNOWN), dict(tm.VALUES)
        self.put(self.k, self.v)

    def put(self, k, v):
        tm.KNOWN.clear()
        tm.KNOWN.update(k)
        tm.VALUES.clear()
        tm.VALUES.update(v)

    def __exit__(self, *a):
        self.put(*self.old)


def entry(crate, name, impl=None, given=(), label="", vals=(), **assume):
    """analyse an exported function; given/vals: facts of the case (literals, and values of input terms)"""
    key = (crate, name, impl, tuple(sorted(assume.items(), key=lambda x: x[0])), tuple(given), tuple(vals))
    lits = literals(given) if given else {}
    with globals()["given"](lits, vals):
        r = _entry(key, crate, name, impl, lits, label, assume)
        r.vals = vals
        return r


def _entry(key, crate, name, impl, lits, label, assume):
    r = _R.get(key)
    if r is None:
        b = find(crate, name, impl)
        en = E()
        n0 = len(en.unmodelled)
        un0 = set(en.unmodelled)
        f0 = set(en.fns)
        en.fns.clear()
        t = time.time()
        res = en.run_entry(b, assume=assume)
        r = Entry(res, crate, name, assume)
        r.known, r.label = lits, label
        r.secs = time.time() - t
        r.fns = set(en.fns)
        en.fns |= f0
        _R[key] = r
    return r


def arg(n):
    return mk("arg", n)


SOME = "some"


def joined(evs):
    """the same effect on alternative paths is one effect under either condition"""
    at_, out = {}, []
    for e, p in evs:
        if e.kind not in ("loop", "assert", "unk", "authcheck") and e.g is not ONE:
            try:
                k = (e.kind, p, tuple(sorted(e.d.items(), key=lambda x: x[0])), e.auth if not isinstance(e.auth, list) else tuple(e.auth))
                same = at_.setdefault(k, [])
            except TypeError:
                same = None
            if same is not None:
                for i in list(same):
                    o = out[i][0]
                    if len(o.g.d) * len(e.g.d) <= 4000 and not pmul(o.g, e.g).d:
                        e = eng.Ev(e.kind, e.g + o.g, e.d, e.line, e.fn, e.auth, e.stack)
                        out[i] = None
                        same.remove(i)
                same.append(len(out))
        out.append((e, p))
    return [x for x in out if x]


HOLDER = {}     # id(effect) -> Entry


def literal_facts(evs):
    """what every successful run establishes, as literals: {indicator: 0/1}"""
    st = eng.State()
    for e, p in evs:
        if e.kind == "assert" and not p:
            c = ONE - pmul(e.g, ONE - e.d["cond"]) if e.g is not ONE else e.d["cond"]
            c = assume_(c, st.known)
            if c.d:
                E().learn(st, c)
    return st.known


class Entry:
    def __init__(self, res, crate, name, assume):
        self.res, self.crate, self.name, self.assume = res, crate, name, assume
        self.evs = joined(res.events())
        self.ret = res.ret
        self.b = res.b
        self.lits = literal_facts(self.evs)
        for e, p in self.evs:
            HOLDER[id(e)] = self

    def success(self, *about):
        """holds in every successful run: the facts that concern the given values"""
        on, p = set(), ONE
        for x in about:
            on |= subterms(x)
        for t, v in [(t, v) for t, v in self.lits.items() if t in on][:10]:
            p = mulx(p, A(t) if v else ONE - A(t))
        return p

    @property
    def id(self):
        s = "%s::%s" % (self.crate, self.name) + (" {%s}" % self.label if self.label else "")
        if self.assume:
            s += "[%s]" % ", ".join("%s=%s" % (k, v if isinstance(v, str) else show(v, 2))
                                    for k, v in sorted(self.assume.items()))
        return s

    def where(self):
        return "%s:%s %s" % (self.b.file.replace(facts.REPO.rstrip("/") + "/", ""), self.b.line, self.name)

    @property
    def res_self0(self):
        """component state before the call, as coerced for its type"""
        return E().coerce(mk("arg", "self"), re.sub(r"^&('\S+ )?(mut )?", "", self.b.types[self.b.locals[1]]))

    @property
    def self1(self):
        return self.res.self_state

    # ---- events
    def ev(self, kind, **flt):
        out = []
        for e, path in self.evs:
            if e.kind != kind:
                continue
            if all(e.d.get(k) == v if not callable(v) else v(e.d.get(k)) for k, v in flt.items()):
                out.append((e, path))
        return out

    def calls(self, bp=None, method=None):
        return [(e, p) for e, p in self.ev("call")
                if (bp is None or e.d["bp"] == bp) and (method is None or e.d["method"] == method)]

    def call(self, bp, method):
        c = self.calls(bp, method)
        if len(c) != 1 or c[0][1]:
            raise Missing("%s: %d calls of %s.%s" % (self.id, len(c), bp, method))
        return c[0][0]

    def src(self, bp, method):
        """the unique value returned by reads of bp.method"""
        s = {e.d["ret"] for e, p in self.calls(bp, method)}
        if len(s) != 1:
            raise Missing("%s: %d distinct results of %s.%s" % (self.id, len(s), bp, method))
        return s.pop()

    # ---- preconditions
    def asserts(self, path=()):
        return [e for e, p in self.evs if e.kind == "assert" and p == path]

    def must(self, req, when=ONE, path=()):
        """every successful run with `when` satisfies `req` (both boolean polynomials over program values):
        the recorded assertions rule out  when & !req."""
        x = pmul(when, ONE - req)
        return self._refute(x, self.asserts(path) + (self.asserts(()) if path else []))

    def _refute(self, x, asserts):
        return refute(x, [ONE - pmul(e.g, ONE - e.d["cond"]) for e in asserts])

    def forall(self, coll, req, when=ONE):
        """every successful run establishes req for each element of coll (req over elem/key symbols of coll)"""
        for e, path in self.evs:
            if e.kind == "loop" and e.d["coll"] is coll:
                p = path + (e,)
                lg = e.g
                if not pmul(when, ONE - lg).d:
                    bad = ONE - req
                    if self._refute(bad, [x for x, q in self.evs if x.kind == "assert" and q == p]):
                        return True
        # iterator form: assert(!any(coll, !req))
        return self.must(ONE - mkany(coll, ONE - req), when)

    def emits(self, name):
        return [(e, p) for e, p in self.ev("emit") if e.d["name"] == name]


def refute(x, facts):
    """x (an indicator) is impossible when all the facts hold"""
    if not x.d:
        return True
    cand = []
    ats = p_inds(x)
    bases = {t.a[0] for t in ats if t.a}
    for i, a in enumerate(facts):
        if a is ONE:
            continue
        if not a.d:
            return True
        ia = p_inds(a)
        sh = len(ats & ia) + sum(1 for t in ia if t.a and t.a[0] in bases)
        if sh:
            cand.append((-sh, len(a.d), i, a))
    cand.sort(key=lambda z: z[:3])
    for _, _, _, a in cand:                 # one fact alone
        if len(a.d) * len(x.d) <= 4000 and not mulx(x, a).d:
            return True
    y = x
    for _, _, _, a in cand:
        if len(a.d) * len(y.d) > 4000:
            continue
        z = mulx(y, a)
        if not z.d:
            return True
        if len(z.d) < 400:
            y = z
    return False


def mulx(a, b):
    old = tm.LIMIT
    tm.LIMIT = 10 ** 9
    try:
        return pmul(a, b)
    finally:
        tm.LIMIT = old


# ---------------------------------------------------------------- value access
def f(v, path):
    """field access: 'a.b.0' ; '?' unwraps Some"""
    it = iter(path.split("."))
    for n in it:
        if n.startswith("@"):
            n = n + "." + next(it)
        v = proj(v, "@Some.0" if n == "?" else n)
    return v


def at(m, k):
    """value of map m at key k (known present)"""
    return proj(map_at(m, k), "@Some.0")


def num(v, ty=None):
    return eng.as_num(v, ty or eng.DEC)


def fn_(v, path, ty=None):
    return num(f(v, path), ty)


def boolv(v):
    return eng.as_bool(v)


def is_some(v):
    return E().is_some(v)


def variant(v, name, names):
    return E().is_variant(v, name, names)


def eqv(a, b):
    return tm.eqv(a, b)


def const(name):
    for b in ():
        pass
    return mk("const", "named", name)


def cond_eq(a, b, when=ONE):
    """a and b are the same value whenever `when`"""
    try:
        return same_value(a, b, when, 0)
    except TooDeep:
        return False


class TooDeep(Exception):
    pass


def same_value(a, b, when, n):
    if a is b or not when.d:
        return True
    if n > 40:
        raise TooDeep
    if isinstance(a, P) or isinstance(b, P):
        try:
            return not pmul(lift(a) - lift(b), when).d
        except Exception:
            return False
    if not (isinstance(a, T) and isinstance(b, T)):
        return False
    for x, y in ((a, b), (b, a)):
        if x.op == "gate":
            return all(same_value(v, y, pmul(when, g), n + 1) for v, g in x.a[0])
    for x, y in ((a, b), (b, a)):
        if x.op == "adt":
            if y.op == "adt":
                if x.a[:3] != y.a[:3]:
                    return False
            elif x.a[1] != x.a[0].split("::")[-1] or not x.a[2] or y.op in ("never", "uninit", "tup", "cat"):
                return False
            return all(same_value(v, tm.opaque_field(y, m, v), when, n + 1) for m, v in zip(x.a[2], x.a[3]))
        if x.op == "tup":
            if y.op == "tup" and len(x.a[0]) != len(y.a[0]) or not x.a[0]:
                return False
            return all(same_value(v, tm.opaque_field(y, str(m), v), when, n + 1) for m, v in enumerate(x.a[0]))
    if "upd" in (a.op, b.op):
        ab, af = (a.a[0], dict(a.a[1])) if a.op == "upd" else (a, {})
        bb, bf = (b.a[0], dict(b.a[1])) if b.op == "upd" else (b, {})
        return same_value(ab, bb, when, n + 1) and all(same_value(
            af[m] if m in af else tm.opaque_field(ab, m, bf[m]), bf[m] if m in bf else tm.opaque_field(bb, m, af[m]), when,
            n + 1) for m in sorted(set(af) | set(bf)))
    if "cat" in (a.op, b.op):
        sa = [x for x in tm.segs(a) if pmul(x[-1], when).d]
        sb = [x for x in tm.segs(b) if pmul(x[-1], when).d]
        if len(sa) != len(sb):
            return False
        for x, y in zip(sa, sb):
            if x[0] != y[0] or len(x) != len(y) or not same_value(x[-1], y[-1], when, n + 1):
                return False
            if x[0] == "one" and not same_value(x[1], y[1], pmul(when, x[-1]), n + 1):
                return False
            if x[0] != "one" and x[1:-1] != y[1:-1] and not (x[1] is y[1] and len(x) == 4 and same_value(
                    x[2], y[2], pmul(when, x[-1]), n + 1)):
                return False
        return True
    if "mapw" in (a.op, b.op):
        ma, wa = tm.map_chain(a)
        mb, wb = tm.map_chain(b)
        if ma is not mb:
            return False
        for k in dict.fromkeys([w[0] for w in wa + wb]):
            ha, hb = tm.map_has(a, k), tm.map_has(b, k)
            if not same_value(ha, hb, when, n + 1) or not same_value(
                    tm.map_at(a, k), tm.map_at(b, k), pmul(when, ha), n + 1):
                return False
        return True
    if a.op == b.op == "mapcomp" and a.a[0] is b.a[0]:
        return same_value(a.a[3], b.a[3], when, n + 1) and all(
            same_value(a.a[i], b.a[i], pmul(when, a.a[3]), n + 1) for i in (1, 2))
    return False


# ---------------------------------------------------------------- checker
class Checker:
    def __init__(self, prop):
        self.prop = prop
        self.obs = []
        self.viol = []
        self.notes = []
        self.entries = {}
        self.t0 = time.time()

    def use(self, r):
        self.entries[r.id] = r
        return r

    def entry(self, crate, name, impl=None, given=(), label="", vals=(), **assume):
        return self.use(entry(crate, name, impl, given, label, vals, **assume))

    def ob(self, rule, ok, where, detail="", key=None):
        """one obligation. where: Entry, Ev, or text"""
        if isinstance(where, Entry):
            w = where.where()
        elif isinstance(where, eng.Ev):
            w = where.loc()
        else:
            w = str(where)
        ok = bool(ok)
        self.obs.append((rule, w, ok))
        if not ok:
            self.viol.append({"rule": rule, "where": w, "detail": detail if isinstance(detail, str) else show(detail, 6),
                              "key": key or rule})
        return ok

    def same(self, rule, got, want, where, when=ONE, key=None):
        ok = cond_eq(got, want, when)
        if not ok:
            r = where if isinstance(where, Entry) else HOLDER.get(id(where))
            if r is not None and r.lits:      # the condition that decides it is demanded only later
                ok = cond_eq(got, want, mulx(when, r.success(got, want)))
        d = ""
        if not ok:
            if isinstance(got, P) or isinstance(want, P):
                try:
                    diff = pmul(lift(got) - lift(want), when)
                    d = "found - required = %s" % show(diff, 9)[:1500]
                except Exception:
                    d = "found %s\nrequired %s" % (show(got, 9)[:1500], show(want, 9)[:1500])
            else:
                d = "found %s\nrequired %s" % (show(got, 9)[:1500], show(want, 9)[:1500])
        return self.ob(rule, ok, where, d, key)

    def must(self, r, rule, req, when=ONE, path=(), key=None):
        if not path:
            r.reqs = getattr(r, "reqs", []) + [ONE - mulx(when, ONE - req)]
        return self.ob(rule, r.must(req, when, path), r,
                       "no assertion on every successful path establishes %s" % show(req, 8)[:1200], key)

    def accepts(self, r, rule, *conds):
        """refused only for the stated reasons: every assertion follows from the conditions stated before (must) and those given"""
        conds = list(getattr(r, "reqs", ())) + list(conds)
        for e, path in r.ev("assert"):
            bad = pmul(e.g, ONE - e.d["cond"])
            if bad.d:
                self.ob("%s: refused only for the stated reasons" % rule, refute(bad, conds), e,
                        "also demands %s" % show(e.d["cond"], 7)[:800], key="%s: also demands %s" % (rule, show(e.d["cond"], 5)[:120]))

    def no_unknown(self, r):
        """nothing in the entry escaped the analysis"""
        u = r.ev("unk")
        self.ob("%s: every operation is modelled" % r.id, not u, u[0][0] if u else r,
                "unmodelled: %s" % [(e.d.get("name"), e.loc()) for e, _ in u][:3])

    def note(self, s):
        self.notes.append(s)

    def par(self, thunks):
        """run independent parts in forked workers (same obligations, in task order)"""
        import pickle
        import select
        thunks = list(thunks)
        n = min(int(os.environ.get("VERIF_JOBS") or 8), os.cpu_count() or 1, len(thunks))
        if n <= 1:
            for t in thunks:
                guarded(self, t)
            return
        res = {}
        kids = {}
        sys.stdout.flush()
        for w in range(n):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(rd)
                    out = []
                    for i in range(w, len(thunks), n):
                        c = Checker(self.prop)
                        guarded(c, thunks[i])
                        out.append((i, c.obs, c.viol, c.notes, {k: Seen(r) for k, r in c.entries.items()}))
                    with os.fdopen(wr, "wb") as fh:
                        pickle.dump(out, fh)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            kids[rd] = (pid, w, [])
        while kids:
            for rd in select.select(list(kids), [], [])[0]:
                b = os.read(rd, 1 << 20)
                if b:
                    kids[rd][2].append(b)
                    continue
                pid, w, buf = kids.pop(rd)
                os.close(rd)
                os.waitpid(pid, 0)
                if not buf:
                    raise RuntimeError("worker %d ended without a result" % w)
                for i, o, v, nt, en in pickle.loads(b"".join(buf)):
                    res[i] = (o, v, nt, en)
        for i in range(len(thunks)):
            o, v, nt, en = res[i]
            self.obs += o
            self.viol += v
            self.notes += nt
            for k, r in en.items():
                self.entries.setdefault(k, r)


class Seen:
    """what the evidence needs of an entry analysed in a worker"""
    def __init__(self, r):
        self.fns = set(r.fns)
        self.stats = r.stats if isinstance(r, Seen) else stats(r)


def stats(r):
    return (sum(1 for e, _ in r.evs if e.kind == "call"), sum(1 for e, _ in r.evs if e.kind == "assert"), len(r.evs))


def guarded(ck, rule):
    try:
        rule(ck)
    except Missing as ex:
        ck.ob("anchor present", False, str(ex), "the analysed construct is not in the program: %s" % ex,
              key="missing:%s" % ex)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        ck.ob("rule applies to the construct", False, "%s:%s" % (tb[-1].name, tb[-1].lineno),
              "unexpected shape: %r via %s" % (ex, [(x.name, x.lineno) for x in tb[-5:]]), key="shape")


def load_known():
    p = os.path.join(facts.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return json.load(fh)["findings"]


def run(prop, rules, meta):
    """run the rules of one property; returns the exit code"""
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = Checker(prop)
    for rule in rules:
        guarded(ck, rule)
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    new = []
    for v in ck.viol:
        m = [k for k in known if k["key"] == v["key"]]
        if m:
            print("KNOWN-FINDING: property=%s %s" % (prop, m[0]["what"]))
        else:
            new.append(v)
    ev = os.path.join(facts.VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    fns = set()
    for r in ck.entries.values():
        fns |= r.fns
    wall = time.time() - ck.t0
    nob = len(ck.obs)
    st = [r.stats if isinstance(r, Seen) else stats(r) for r in ck.entries.values()]
    cov = {
        "explanation": meta["technique"],
        "entry_points_analysed": sorted(ck.entries)[:800],
        "functions_analysed": len(fns),
        "functions": sorted(x.split("::", 1)[1] if "::" in x else x for x in fns)[:400],
        "call_sites": sum(z[0] for z in st),
        "assertions_seen": sum(z[1] for z in st),
        "events_seen": sum(z[2] for z in st),
        "obligations": nob,
        "discharged": sum(1 for o in ck.obs if o[2]),
        "rules": [{"obligation": o[0], "at": o[1], "holds": o[2]} for o in ck.obs][:600],
        "notes": ck.notes,
        "facts": "type-checked MIR of %d bodies in %d crates of %s" % (len(F().bodies), len(facts.CRATES), facts.REPO),
    }
    out = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
           "level": meta.get("level", "other"), "coverage": cov,
           "assumptions": meta.get("assumptions", []), "wall_s": round(wall, 2)}
    path = os.path.join(ev, prop + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(out, fh, indent=1)
    os.replace(path + ".tmp", path)
    vp = os.path.join(ev, prop + ".violations.json")
    if new:
        with open(vp, "w") as fh:
            json.dump(new, fh, indent=1)
        for v in new[:12]:
            print("%s\n   at %s\n   %s" % (v["rule"], v["where"], v["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, vp))
        return 1
    if os.path.exists(vp):
        os.unlink(vp)
    if nob == 0:
        print("no obligations generated for %s" % prop)
        return 2
    print("%s holds: %d obligations over %d entry points, %d functions, %.1fs" % (
        prop, nob, len(ck.entries), len(fns), wall))
    return 0
