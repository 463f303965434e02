"""Interprocedural gated-value analysis over MIR.

Every function body is evaluated once per calling context over its acyclic control-flow
graph in reverse post-order; values are merged at joins as gated (phi) terms whose guards
are the branch conditions relative to the immediate dominator.  Loops are summarised.  No
path is enumerated and no input is chosen: the result is one value-flow graph per entry
point, plus a linear trace of guarded events (component calls, assertions, emitted events).
"""
import re
from terms import *
import terms as tm


class EngError(Exception):
    pass


NUM_TY = {"scrypto::prelude::Decimal", "scrypto::prelude::PreciseDecimal", "scrypto::prelude::I192",
          "scrypto::prelude::I256", "scrypto::prelude::Instant",
          "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
UNSIGNED = {"u8", "u16", "u32", "u64", "u128", "usize"}
INT_TY = UNSIGNED | {"i8", "i16", "i32", "i64", "i128", "isize"}
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 7, "i16": 15, "i32": 31,
        "i64": 63, "isize": 63, "i128": 127}
DEC = "scrypto::prelude::Decimal"

UNIT = mk("unit")
UNINIT = mk("uninit")
NONE = mk("adt", "std::option::Option", "None", (), ())
MAPNEW = mk("mapnew")
VECNEW = mkcat(())
FNITEMS = {}    # function values -> how they are called


def some(v):
    return mk("adt", "std::option::Option", "Some", ("0",), (v,))


def ok(v):
    return mk("adt", "std::result::Result", "Ok", ("0",), (v,))


def tup(*v):
    return mk("tup", tuple(v))


def ref(root, path=()):
    return mk("ref", root, path)


def opt(g, v):
    """Some(v) if g else None"""
    return ite(g, some(v), NONE)


class Ev:
    __slots__ = ("kind", "g", "d", "line", "fn", "auth", "sub", "stack")

    def __init__(self, kind, g, d, line, fn, auth, stack=()):
        self.kind, self.g, self.d, self.line, self.fn, self.auth = kind, g, d, line, fn, auth
        self.sub = None
        self.stack = stack

    def loc(self):
        return "%s:%s (%s)" % (self.fn.file.replace("/repo/", ""), self.line, self.fn.name or self.fn.k.split("::")[-1])

    def __repr__(self):
        s = "%s %s" % (self.kind, {k: v for k, v in self.d.items()})
        return "<%s @%s g=%s>" % (s, self.loc(), show(self.g, 4))


class State:
    __slots__ = ("store", "known", "ver")

    def __init__(self, store=None, known=None, ver=None):
        self.store = store if store is not None else {}
        self.known = known if known is not None else {}
        self.ver = ver if ver is not None else {}

    def copy(self):
        return State(dict(self.store), dict(self.known), dict(self.ver))


class Cfg:
    """control flow without panic-only blocks"""

    def __init__(self, b):
        bl = b.blocks
        n = len(bl)
        succ = [[] for _ in range(n)]
        for i, x in enumerate(bl):
            if x is None:
                continue
            t = x["t"]
            if t[0] == "goto":
                s = [t[1]]
            elif t[0] == "switch":
                s = [y for _, y in t[2]] + [t[3]]
            elif t[0] == "drop":
                s = [t[2]]
            elif t[0] == "call":
                s = [t[4]] if t[4] is not None else []
            elif t[0] == "assert":
                s = [t[3]]
            else:
                s = []
            succ[i] = s
        pred = [[] for _ in range(n)]
        for i in range(n):
            for s in succ[i]:
                pred[s].append(i)
        live = set()
        st = [i for i in range(n) if bl[i] is not None and bl[i]["t"][0] == "ret"]
        while st:
            i = st.pop()
            if i in live:
                continue
            live.add(i)
            st.extend(pred[i])
        # reachable from entry
        seen = set()
        order = []

        def dfs(r):
            stack = [(r, iter([s for s in succ[r] if s in live]))]
            seen.add(r)
            while stack:
                v, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter([q for q in succ[s] if q in live])))
                        break
                else:
                    order.append(v)
                    stack.pop()

        self.diverges = 0 not in live
        if self.diverges:
            self.rpo = []
            return
        dfs(0)
        self.rpo = order[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        self.live = seen
        self.succ = {i: [s for s in succ[i] if s in seen] for i in self.rpo}
        self.pred = {i: [] for i in self.rpo}
        for i in self.rpo:
            for s in self.succ[i]:
                if i not in self.pred[s]:
                    self.pred[s].append(i)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for v in self.rpo[1:]:
                ps = [p for p in self.pred[v] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    a = x
                    while a != y:
                        while self.idx[a] > self.idx[y]:
                            a = idom[a]
                        while self.idx[y] > self.idx[a]:
                            y = idom[y]
                    x = a
                if idom.get(v) != x:
                    idom[v] = x
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for v in self.rpo:
            for s in self.succ[v]:
                if self.dom(s, v):
                    body = self.loops.setdefault(s, {s})
                    st = [v]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])

    def dom(self, a, b):
        while self.idx[b] > self.idx[a]:
            b = self.idom[b]
        return a == b


def strip_generics(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            if d == 0 and s.startswith("<impl ", i):
                # keep <impl X> as a marker
                j = i
                k = 0
                while True:
                    if s[j] == "<":
                        k += 1
                    elif s[j] == ">" and s[j - 1] != "-":
                        k -= 1
                        if k == 0:
                            break
                    j += 1
                out.append("<impl>")
                i = j + 1
                continue
            d += 1
        elif c == ">" and (i == 0 or s[i - 1] != "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("::::", "::")


_sg = {}


# discriminants of library enums that no analysed crate records
BUILTIN = {"ControlFlow": {"0": "Continue", "1": "Break"}, "Entry": {"0": "Occupied", "1": "Vacant"}}


def sg(s):
    r = _sg.get(s)
    if r is None:
        r = _sg[s] = strip_generics(s)
    return r


class Frame:
    __slots__ = ("b", "id", "g", "auth", "stack")


class Engine:
    def __init__(self, facts):
        self.f = facts
        self.trace = []
        self.fid = 0
        self.fresh = 0
        self.unmodelled = {}
        self.fns = set()          # bodies analysed
        self.nblocks = 0
        self.ncalls = 0
        self.nomut = False
        self.quiet = 0
        self.depth = 0
        self.constcache = {}
        import stdmodel
        self.models = stdmodel.MODELS
        self.stdmodel = stdmodel
        self.leaf = set()
        tm.BOOLF = facts_boolfields(facts)

    # ------------------------------------------------------------ events
    def ev(self, kind, g, fr, line, **d):
        e = Ev(kind, g, d, line, fr.b, fr.auth, fr.stack)
        self.trace.append(e)
        return e

    # ------------------------------------------------------------ places
    def lv(self, fr, st, place):
        """-> list of (root|None, value-or-path, guard)"""
        cur = [(("L", fr.id, place[0]), (), ONE)]
        variant = None
        for e in place[1]:
            k = e[0]
            if k == "*":
                nxt = []
                for root, path, g in cur:
                    v = self.rd(st, root, path)
                    for r2, p2, g2 in self.reftargets(v):
                        nxt.append((r2, p2, pmul(g, g2)))
                cur = nxt
                variant = None
            elif k == "f":
                n = e[1]
                if variant is not None:
                    n = "@%s.%s" % (variant, n)
                    variant = None
                cur = [self.step(c, n) for c in cur]
            elif k == "v":
                variant = e[1]
            elif k == "i":
                iv = st.store.get(("L", fr.id, e[1]), UNINIT)
                cur = [self.step(c, ("at", iv)) for c in cur]
            elif k == "ci":
                cur = [self.step(c, ("at", C(e[1]) if not e[2] else mk("fromend", C(e[1])))) for c in cur]
            else:
                cur = [self.step(c, "?" + str(k)) for c in cur]
        return cur

    def step(self, c, n):
        root, path, g = c
        if root is None:
            return (None, self.pstep(path, n), g)
        return (root, path + (n,), g)

    def reftargets(self, v):
        if isinstance(v, P):
            return [(None, v, ONE)]
        if v.op == "ref":
            return [(v.a[0], v.a[1], ONE)]
        if v.op == "gate":
            out = []
            for w, g in v.a[0]:
                for r, p, h in self.reftargets(w):
                    out.append((r, p, pmul(g, h)))
            return out
        return [(None, v, ONE)]

    def rd(self, st, root, path):
        if root is None:
            return path
        v = st.store.get(root)
        if v is None:
            v = UNINIT
        for n in path:
            v = self.pstep(v, n)
        return v

    def pstep(self, v, n):
        if isinstance(n, tuple):
            if isinstance(v, T) and (v.op == "cat" or v.op == "vec"):
                return vec_at(v, n[1])
            if isinstance(n[1], P) and isinstance(v, T) and n[1] is A(mk("idx", v)):
                return vec_at(v, n[1])
            return map_at(v, n[1])
        if isinstance(v, T) and v.op == "box":
            return v.a[0]
        if isinstance(v, T) and v.op == "ref" and n == "0":
            return v                # Box<T>.0: the pointer
        return proj(v, n)

    def pset(self, v, path, x):
        if not path:
            return x
        n = path[0]
        if isinstance(n, tuple):
            old = self.pstep(v, n)
            new = self.pset(old, path[1:], x)
            if v.op in ("cat", "vec"):
                return vec_set(v, n[1], new)
            return mapw(v, n[1], new, ONE)
        if isinstance(v, T) and v.op == "box":
            return mk("box", x)
        if len(path) == 1:
            return set_field(v, n, x)
        return set_field(v, n, self.pset(proj(v, n), path[1:], x))

    def wr(self, st, root, path, x, g=ONE):
        if root is None:
            return False
        old = st.store.get(root, UNINIT)
        if path or g is not ONE:
            if g is ONE:
                x = self.pset(old, path, x)
            else:
                cur = self.rd(st, root, path)
                x = self.pset(old, path, ite(g, x, cur))
        st.store[root] = x
        return True

    def read_place(self, fr, st, place, ty=None):
        cur = self.lv(fr, st, place)
        if len(cur) == 1:
            r, p, g = cur[0]
            v = self.rd(st, r, p)
        else:
            v = merge_all([(self.rd(st, r, p), g) for r, p, g in cur])
        return self.coerce(v, ty, st)

    def coerce(self, v, ty, st=None):
        if ty is not None and isinstance(v, T) and v.op != "discr":
            if ty == "bool":
                v = as_bool(v)
            elif ty in NUM_TY:
                v = as_num(v, ty)
            elif ty.startswith("std::collections::Hash") or ty.startswith("scrypto::component::KeyValueStore") or \
                    "indexmap::Index" in ty[:60] or ty.startswith("common::Hash"):
                tm.MAPS.add(v)
        if st is not None and isinstance(v, P) and st.known and p_inds(v):
            v = assume(v, st.known)
        return v

    def operand(self, fr, st, o):
        if o[0] == "k":
            return self.const(o[1], fr.b)
        return self.read_place(fr, st, o[1], fr.b.types[o[2]] if len(o) > 2 and o[2] is not None else None)

    def const(self, k, body):
        if k.get("un") and not k.get("i") and k.get("s") is None:
            return self.named_const(k["un"], k.get("uk"), k.get("ty"))
        if "pr" in k:
            key = "%s#%s" % (k["of"], k["pr"])
            return self.eval_const_body(key, k.get("ty"))
        ty = k.get("ty", "")
        if k.get("un") and k.get("uk") in self.f.bodies:
            return self.named_const(k["un"], k.get("uk"), ty)
        if k.get("f"):
            fd = k["f"] if isinstance(k["f"], dict) else {"fn": k["f"], "k": k["f"], "a": []}
            t = mk("fnitem", fd["k"], fd.get("rk") or "", fd["fn"], tuple(fd.get("a") or ()))
            FNITEMS[t] = fd
            return t
        if k.get("s") is not None:
            return mk("str", k["s"])
        if "i" in k and k["i"] is not None:
            v = int(k["i"])
            if ty == "bool":
                return C(v)
            if ty in INT_TY:
                return C(v)
            if ty == "char":
                return mk("const", "char", v)
            return mk("const", ty, v)
        if ty == "()":
            return UNIT
        return mk("const", ty, k.get("d", ""))

    def named_const(self, name, key, ty):
        if key in self.f.bodies:
            return self.eval_const_body(key, ty)
        n = name.split("::")[-1]
        if name.startswith("core::num") or name.startswith("std::") or name.startswith("core::"):
            m = re.match(r".*::(MAX|MIN|BITS)$", name)
            if m and ty in BITS:
                if n == "MAX":
                    return C(2 ** BITS[ty] - 1)
                if n == "MIN":
                    return C(0 if ty in UNSIGNED else -2 ** BITS[ty])
        v = mk("const", "named", name)
        if n == "ZERO" and ty in NUM_TY:
            return ZERO
        if ty in ("scrypto::prelude::Decimal", "scrypto::prelude::PreciseDecimal"):
            if n == "ONE":
                return ONE
            return A(v)
        if ty in NUM_TY:
            return A(v)
        return v

    def eval_const_body(self, key, ty=None):
        r = self.constcache.get(key)
        if r is not None:
            return r
        b = self.f.bodies.get(key)
        if b is None:
            return mk("const", "named", key)
        tr, self.trace = self.trace, []
        try:
            st = State()
            fr, v = self.eval_body(b, [], st, ONE, None, ())
            v = self.deep(st, v)
            bad = any(t.op in ("uninit", "unk", "call") for t in subterms(v)) if isinstance(v, T) else \
                any(t.op in ("uninit", "unk", "call") for t in subterms(v))
            if bad and b.kind == "const":
                v = mk("const", "named", key)
                if ty in NUM_TY:
                    v = A(v)
        finally:
            self.trace = tr
        self.constcache[key] = v
        return v

    def deep(self, st, v):
        """replace references by the values they point to (consts)"""
        if isinstance(v, T):
            if v.op == "ref":
                return self.deep(st, self.rd(st, v.a[0], v.a[1]))
            if v.op == "adt":
                return mk("adt", v.a[0], v.a[1], v.a[2], tuple(self.deep(st, x) for x in v.a[3]))
            if v.op == "tup":
                return mk("tup", tuple(self.deep(st, x) for x in v.a[0]))
            if v.op == "gate":
                return merge_all([(self.deep(st, x), g) for x, g in v.a[0]])
            if v.op == "cat":
                return mkcat(tuple((s[0],) + tuple(self.deep(st, x) if isinstance(x, T) else x for x in s[1:-1]) + (s[-1],)
                                   for s in v.a[0]))
        return v

    def deref(self, st, v, ty=None):
        """strip references"""
        n = 0
        while isinstance(v, T) and n < 8:
            if v.op == "ref":
                v = self.rd(st, v.a[0], v.a[1])
            elif v.op == "gate" and any(w.op == "ref" for w, _ in v.a[0]):
                v = merge_all([(self.deref(st, w), g) for w, g in v.a[0]])
            else:
                break
            n += 1
        if ty is not None:
            v = self.coerce(v, ty, st)
        return v

    def num(self, st, v, ty=DEC):
        v = self.deref(st, v)
        v = as_num(v, ty) if isinstance(v, T) else v
        if st.known and p_inds(v):
            v = assume(v, st.known)
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r, line):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            cur = self.lv(fr, st, r[2])
            out = []
            for root, path, g in cur:
                if root is None:
                    out.append((path, g))
                else:
                    out.append((ref(root, path), g))
            return merge_all(out)
        if k == "cast":
            v = self.operand(fr, st, r[2])
            kind, to, frm = r[1], r[3], r[4]
            if kind.startswith("IntToInt"):
                v = as_num(v, frm) if isinstance(v, T) else v
                return self.int_cast(v, to, frm)
            return v
        if k == "bin":
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            return self.binop(r[1], a, b, r[4], st)
        if k == "un":
            v = self.operand(fr, st, r[2])
            if r[1] == "Not":
                if isinstance(v, T):
                    v = as_bool(v)
                return ONE - v
            if r[1] == "Neg":
                return -lift(v)
            return mk("un", r[1], v)
        if k == "discr":
            v = self.read_place(fr, st, r[1])
            v = self.deref(st, v)
            return mk("discr", v, r[2])
        if k == "agg":
            return self.agg(fr, st, r)
        if k == "rep":
            return mk("rep", self.operand(fr, st, r[1]), str(r[2]) if len(r) > 2 else "")
        return mk("unk", str(r)[:120])

    def int_cast(self, v, to, frm):
        c = v.const() if isinstance(v, P) else None
        if c is not None:
            bits = BITS[to]
            lo, hi = (0, 2 ** bits - 1) if to in UNSIGNED else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
            if lo <= c <= hi:
                return v
        if frm == "bool":
            return lift(v)
        if BITS.get(to, 0) >= BITS.get(frm, 999) and not (to in UNSIGNED and frm not in UNSIGNED):
            return lift(v)
        if {to, frm} <= {"usize", "u64"}:
            return lift(v)
        if to in BITS and frm in BITS:
            lo, hi = (0, 2 ** BITS[to] - 1) if to in UNSIGNED else (-2 ** (BITS[to] - 1), 2 ** (BITS[to] - 1) - 1)
            n = as_num(v, frm)
            if lt0(n - lo, True) is ZERO and lt0(hi - n, True) is ZERO:
                return v
        t = mk("cast", to, frm, lift(v))
        if to in UNSIGNED:
            tm.NONNEG.add(t)
        return A(t)

    def binop(self, op, a, b, ty, st):
        if op in ("Eq", "Ne") and (isinstance(a, T) or isinstance(b, T)):
            if ty == "bool":
                a, b = as_bool(a), as_bool(b)
                e = a * b + (ONE - a) * (ONE - b)
            elif ty in NUM_TY:
                a, b = as_num(a, ty), as_num(b, ty)
                e = eq0(a - b, True)
            else:
                e = eqv(self.deref(st, a), self.deref(st, b))
            return e if op == "Eq" else ONE - e
        if ty == "bool":
            a, b = as_bool(a), as_bool(b)
            if op == "BitAnd":
                return a * b
            if op == "BitOr":
                return a + b - a * b
            if op in ("BitXor", "Ne"):
                return a + b - 2 * a * b
            if op == "Eq":
                return ONE - a - b + 2 * a * b
        a, b = as_num(a, ty), as_num(b, ty)
        isint = ty in INT_TY
        wo = op.endswith("WithOverflow")
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        if o == "Add":
            v = a + b
        elif o == "Sub":
            v = a - b
            if ty in UNSIGNED and not nonneg(v):
                pass
        elif o == "Mul":
            v = a * b
        elif o == "Eq":
            return eq0(a - b, isint)
        elif o == "Ne":
            return ONE - eq0(a - b, isint)
        elif o == "Lt":
            return lt0(a - b, isint)
        elif o == "Gt":
            return lt0(b - a, isint)
        elif o == "Le":
            return ONE - lt0(b - a, isint)
        elif o == "Ge":
            return ONE - lt0(a - b, isint)
        else:
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None and o in ("Div", "Rem", "Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
                v = {"Div": lambda: ca // cb if cb else 0, "Rem": lambda: ca % cb if cb else 0,
                     "Shl": lambda: ca << cb, "Shr": lambda: ca >> cb, "BitAnd": lambda: ca & cb,
                     "BitOr": lambda: ca | cb, "BitXor": lambda: ca ^ cb}[o]()
                v = C(v)
            else:
                t = mk("int" + o, a, b)
                if ty in UNSIGNED:
                    tm.NONNEG.add(t)
                v = A(t)
        if wo:
            return tup(v, ZERO)
        return v

    def agg(self, fr, st, r):
        k, ops = r[1], r[2]
        vs = [self.operand(fr, st, o) for o in ops]
        kind = k["k"]
        if kind == "array":
            return mkcat(tuple(("one", v, ONE) for v in vs))
        if kind == "tuple":
            return UNIT if not vs else mk("tup", tuple(vs))
        if kind == "closure":
            return mk("clo", k["p"] if isinstance(k.get("p"), str) else str(k), tuple(vs))
        p = norm_crate(k["p"], fr.b.crate)
        if p in ("scrypto::prelude::Decimal",) and len(vs) == 1:
            return pscale(lift(vs[0]), Fraction(1, 10 ** 18))
        if p in ("scrypto::prelude::PreciseDecimal",) and len(vs) == 1:
            return pscale(lift(vs[0]), Fraction(1, 10 ** 36))
        if p == "scrypto::prelude::Instant":
            return lift(vs[0])
        names = tuple(r[3]) if len(r) > 3 and r[3] else tuple(str(i) for i in range(len(vs)))
        # field coercion by declared types
        ad = self.f.adts.get(p)
        variant = k.get("v") or ""
        if ad:
            for vv in ad["variants"]:
                if vv["n"] == variant:
                    ft = {n: t for n, t, _ in vv["f"]}
                    vs = [self.coerce(v, ft.get(n)) if isinstance(v, T) else v for n, v in zip(names, vs)]
        return mk("adt", p, variant, names, tuple(vs))

    # ------------------------------------------------------------ bodies
    def cfg(self, b):
        if b._cfg is None:
            b._cfg = Cfg(b)
        return b._cfg

    def eval_body(self, b, args, st, g, auth, stack):
        c = self.cfg(b)
        self.fid += 1
        fr = Frame()
        fr.b, fr.id, fr.g, fr.auth, fr.stack = b, self.fid, g, auth, stack
        if c.diverges:
            return fr, mk("never")
        if len(stack) > 60:
            raise EngError("call depth at %s" % b.k)
        self.fns.add(b.k)
        for i, a in enumerate(args):
            st.store[("L", fr.id, i + 1)] = a
        outs, _, _ = self.region(fr, st, c.rpo, 0, None, g)
        if not outs:
            return fr, mk("never")
        st2 = self.merge_states(fr, outs)
        st.store, st.known, st.ver = st2.store, st2.known, st2.ver
        v = st.store.get(("L", fr.id, 0), UNIT)
        if isinstance(v, T):
            v = self.coerce(v, b.types[b.locals[0]], st)
        return fr, v

    def cleanup(self, st, fr):
        for k in [k for k in st.store if k[0] == "L" and k[1] == fr.id]:
            del st.store[k]

    def call_body(self, b, args, st, g, auth, stack):
        fr, v = self.eval_body(b, args, st, g, auth, stack)
        self.cleanup(st, fr)
        return v

    def region(self, fr, st0, rpo, entry, loop, g0):
        """Evaluate the blocks of rpo (acyclic after collapsing inner loops) from entry.

        Returns (return states [(State, weight)], back-edge states, exit states {target: [...]}).
        Weights of returned lists are relative to the entry block."""
        b = fr.b
        c = self.cfg(b)
        inset = set(rpo)
        inner = {}           # block -> collapsed header
        for h, body in c.loops.items():
            if h in inset and h != entry or (h == entry and loop is None and h in c.loops):
                if h == entry and loop is not None:
                    continue
                for x in body:
                    if x in inset:
                        # outermost inner loop wins
                        o = inner.get(x)
                        if o is None or h in c.loops and o != h and o in c.loops[h]:
                            inner[x] = h
        for x in list(inner):
            h = inner[x]
            while inner.get(h, h) != h:
                h = inner[h]
            inner[x] = h

        def rep(x):
            return inner.get(x, x)

        R = {entry: ONE}
        idomC = {}
        ins = {entry: [(st0, ONE, None)]}      # block -> [(state, edge weight relative to node p, p)]
        rets, backs, exits = [], [], {}

        def weight_to(p, d):
            """guard of reaching p relative to d"""
            w = ONE
            while p != d:
                w = pmul(w, R[p])
                if p not in idomC:
                    break
                p = idomC[p]
            return w

        absg = {entry: g0}
        for blk in rpo:
            if rep(blk) != blk:
                continue
            lst = ins.pop(blk, None)
            if not lst:
                continue
            if blk == entry:
                st = lst[0][0].copy()
                absg[blk] = g0
            else:
                d = rep(c.idom[blk])
                # the dominator of everything in the region is the entry
                if d not in R:
                    d = entry
                idomC[blk] = d
                ws = [(s, pmul(w, weight_to(p, d))) for s, w, p in lst]
                tot = tm._sum([w for _, w in ws])
                R[blk] = tot
                st = self.merge_states(fr, ws) if len(ws) > 1 else lst[0][0]
                if st.known and p_inds(tot):
                    pass
                absg[blk] = pmul(absg[d], tot) if tot is not ONE else absg[d]
            g = assume(absg[blk], {k: v for k, v in st.known.items() if v in (0, 1)}) if False else absg[blk]
            if not g.d:
                continue
            if blk in inner and inner[blk] == blk:
                for tgt, s2, w in self.loop(fr, st, blk, [x for x in rpo if x in c.loops[blk]], g):
                    if tgt == "ret":
                        rets.append((s2, pmul(w, weight_to(blk, entry))))
                    elif tgt == entry and loop is not None:
                        backs.append((s2, pmul(w, weight_to(blk, entry))))
                    elif tgt in inset:
                        ins.setdefault(tgt, []).append((s2, w, blk))
                    else:
                        exits.setdefault(tgt, []).append((s2, pmul(w, weight_to(blk, entry))))
                continue
            for tgt, s2, w in self.block(fr, st, blk, g):
                if tgt == "ret":
                    rets.append((s2, weight_to(blk, entry)))
                elif tgt == entry and loop is not None:
                    backs.append((s2, pmul(w, weight_to(blk, entry))))
                elif tgt in inset:
                    ins.setdefault(tgt, []).append((s2, w, blk))
                else:
                    exits.setdefault(tgt, []).append((s2, pmul(w, weight_to(blk, entry))))
        return rets, backs, exits

    def merge_states(self, fr, l):
        l = [(s, w) for s, w in l if w.d] or l[:1]
        if len(l) == 1:
            return l[0][0].copy()
        base = l[-1][0].copy()
        for s, w in reversed(l[:-1]):
            keys = set(base.store) | set(s.store)
            for k in keys:
                x, y = s.store.get(k), base.store.get(k)
                if x is y:
                    continue
                if x is None or y is None:
                    if x is not None:
                        base.store[k] = x
                    continue
                base.store[k] = ite(w, x, y)
            for k in set(base.ver) | set(s.ver):
                x, y = s.ver.get(k, VER0), base.ver.get(k, VER0)
                if x is not y:
                    base.ver[k] = ite(w, x, y)
            base.known = {k: v for k, v in base.known.items() if s.known.get(k) == v}
        return base

    def block(self, fr, st, blk, g):
        """-> [(target, state, weight)]"""
        self.nblocks += 1
        b = fr.b
        x = b.blocks[blk]
        for s in x["s"]:
            if s[0] == "=":
                v = self.rvalue(fr, st, s[2], s[3])
                self.assign(fr, st, s[1], v)
            elif s[0] == "setd":
                pass
        t = x["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st, ONE)]
        if k == "drop":
            return [(t[2], st, ONE)]
        if k == "ret":
            return [("ret", st, ONE)]
        if k == "assert":
            c = self.operand(fr, st, t[1])
            c = as_bool(c)
            if not t[2]:
                c = ONE - c
            return [(t[3], st, ONE)]
        if k == "call":
            if t[4] is None or t[4] not in self.cfg(b).live:
                return []
            v = self.call(fr, st, g, t)
            if isinstance(v, T) and v.op == "never":
                return []
            self.assign(fr, st, t[3], v, b)
            return [(t[4], st, ONE)]
        if k == "switch":
            return self.switch(fr, st, blk, g, t)
        return []

    def assign(self, fr, st, place, v, b=None):
        if not place[1]:
            if isinstance(v, T):
                v = self.coerce(v, fr.b.types[fr.b.locals[place[0]]])
            st.store[("L", fr.id, place[0])] = v
            return
        for root, path, g in self.lv(fr, st, place):
            self.wr(st, root, path, v, g)

    def switch(self, fr, st, blk, g, t):
        c = self.cfg(fr.b)
        v = self.operand(fr, st, t[1])
        live = c.live
        conds = []
        if isinstance(v, T) and v.op == "discr":
            adt = norm_crate(v.a[1], fr.b.crate)
            tot = ZERO
            for val, tgt in t[2]:
                cond = self.variant_cond(v.a[0], adt, val)
                tot = tot + cond
                conds.append((tgt, cond))
            if t[3] in live or True:
                conds.append((t[3], ONE - tot))
        elif t[4] == "bool":
            v = as_bool(v)
            conds = []
            for val, tgt in t[2]:
                conds.append((tgt, ONE - v if val == "0" else v))
            conds.append((t[3], v if t[2] and t[2][0][0] == "0" else ONE - v))
        else:
            v = as_num(v, t[4]) if isinstance(v, T) else v
            tot = ZERO
            for val, tgt in t[2]:
                cond = eq0(v - int(val), True)
                tot = tot + cond
                conds.append((tgt, cond))
            conds.append((t[3], ONE - tot))
        if st.known:
            conds = [(tg, assume(cd, st.known)) for tg, cd in conds]
        merged = {}
        order = []
        for tg, cd in conds:
            if tg in merged:
                merged[tg] = merged[tg] + cd
            else:
                merged[tg] = cd
                order.append(tg)
        alive = [(tg, merged[tg]) for tg in order if tg in live and merged[tg].d and tg in c.succ[blk]]
        dead = [(tg, merged[tg]) for tg in order if not (tg in live and tg in c.succ[blk]) and merged[tg].d]
        dead = [(tg, cd) for tg, cd in dead if not self.unreach(fr.b, tg)]
        if not alive:
            if dead:
                self.ev("assert", g, fr, t[5] if len(t) > 5 else 0, cond=ZERO, err=self.panic_name(fr.b, dead[0][0]))
            return []
        if dead:
            fail = tm._sum([cd for _, cd in dead])
            if len(alive) == 1:
                cond = alive[0][1] if False else ONE - fail
            else:
                cond = ONE - fail
            self.ev("assert", g, fr, t[5] if len(t) > 5 else 0, cond=cond, err=self.panic_name(fr.b, dead[0][0]))
            self.learn(st, cond)
            alive = [(tg, assume(cd, st.known)) for tg, cd in alive]
            alive = [(tg, cd) for tg, cd in alive if cd.d]
        if len(alive) == 1:
            if not dead:
                self.learn(st, alive[0][1])
            return [(alive[0][0], st, ONE)]
        out = []
        for tg, cd in alive:
            s2 = st.copy()
            self.learn(s2, cd)
            out.append((tg, s2, cd))
        return out

    def unreach(self, b, tgt):
        x = b.blocks[tgt]
        return x is not None and x["t"][0] == "unreach"

    def panic_name(self, b, tgt):
        """ERROR_* constant mentioned on the panicking path (for messages)"""
        seen = set()
        st = [tgt]
        while st and len(seen) < 40:
            i = st.pop()
            if i in seen or b.blocks[i] is None:
                continue
            seen.add(i)
            x = b.blocks[i]
            import json
            s = json.dumps(x)
            m = re.search(r"(ERROR_[A-Z0-9_]+)", s)
            if m:
                return m.group(1)
            m = re.search(r'"of": "([^"]+)"', s)
            if m:
                pk = re.search(r'"pr": (\d+), "of": "([^"]+)"', s)
                if pk:
                    pb = self.f.bodies.get("%s#%s" % (pk.group(2), pk.group(1)))
                    if pb:
                        m = re.search(r"(ERROR_[A-Z0-9_]+)", json.dumps(pb.blocks))
                        if m:
                            return m.group(1)
            t = x["t"]
            if t[0] == "call" and t[4] is not None:
                st.append(t[4])
            elif t[0] == "goto":
                st.append(t[1])
            elif t[0] == "drop":
                st.append(t[2])
        return ""

    def learn(self, st, cond):
        """record literals implied by cond == 1"""
        if cond.const() is not None:
            return
        if len(cond.d) > 64:
            return
        inds = p_inds(cond)
        if len(inds) > 12 or not is_bool(cond):
            return
        for _ in range(3):
            changed = False
            for t in sorted(p_inds(cond), key=lambda t: t.id):
                if t in st.known:
                    continue
                if not cof(cond, t, 1).d:
                    st.known[t] = 0
                    cond = cof(cond, t, 0)
                    changed = True
                elif not cof(cond, t, 0).d:
                    st.known[t] = 1
                    cond = cof(cond, t, 1)
                    changed = True
            if not changed:
                break

    # ------------------------------------------------------------ variants
    def variant_cond(self, v, adt, discr):
        a = self.f.adts.get(adt.split("<")[0])
        known = BUILTIN.get(adt.split("<")[0].split("::")[-1]) if a is None else None
        if known and discr in known:
            return self.is_variant(v, known[discr], list(known.values()))
        if a is None:
            return A(mk("is", v, adt.split("<")[0].split("::")[-1] + "#" + discr))
        names = [x["n"] for x in a["variants"]]
        for x in a["variants"]:
            if x["d"] == discr:
                return self.is_variant(v, x["n"], names)
        return ZERO

    def is_variant(self, v, name, names):
        if isinstance(v, P):
            return A(mk("is", mk("num", v), name))
        if v.op == "adt":
            return ONE if v.a[1] == name else ZERO
        if v.op == "call" and v.a[0] == "require" and "ProofRule" in names:
            return ONE if name == "ProofRule" else ZERO
        if v.op == "gate":
            return tm._sum([pmul(g, self.is_variant(w, name, names)) for w, g in v.a[0]])
        if v.op == "never":
            return ZERO
        if v.op == "entry":
            return v.a[3] if name == "Occupied" else ONE - v.a[3]
        if v.op == "cmp":
            i = v.a[2] is ONE
            lt, eq = lt0(v.a[0] - v.a[1], i), eq0(v.a[0] - v.a[1], i)
            return {"Less": lt, "Equal": eq, "Greater": ONE - lt - eq}[name]
        if v.op == "upd":
            return self.is_variant(v.a[0], name, names)
        if v.op == "optatom":      # Option with explicit presence condition
            return v.a[0] if name in ("Some", "Ok") else ONE - v.a[0]
        if name == names[0]:
            r = ONE
            for n in names[1:]:
                r = r - A(mk("is", v, n))
            return r
        return A(mk("is", v, name))

    def is_some(self, v):
        return self.is_variant(v, "Some", ["None", "Some"])

    def payload(self, v, variant="Some", f="0"):
        return proj(v, "@%s.%s" % (variant, f))

    # ------------------------------------------------------------ calls
    def call(self, fr, st, g, t):
        f = t[1]
        line = t[5] if len(t) > 5 else 0
        args = [self.operand(fr, st, o) for o in t[2]]
        self.ncalls += 1
        if "dyn" in f:
            fv = self.deref(st, self.operand(fr, st, f["dyn"]))
            return self.call_value(fr, st, g, fv, args, line)
        dty = None
        pl = t[3]
        if not pl[1]:
            dty = fr.b.types[fr.b.locals[pl[0]]]
        self.nomut = all(o[0] == "k" or (not o[1][1] and "&mut" not in fr.b.types[fr.b.locals[o[1][0]]] and
                                         "losure" not in fr.b.types[fr.b.locals[o[1][0]]] and
                                         "Box<dyn" not in fr.b.types[fr.b.locals[o[1][0]]]) for o in t[2])
        return self.call_fn(fr, st, g, f, args, line, dty)

    def call_fn(self, fr, st, g, f, args, line, dty=None):
        name = f["fn"]
        tr = f.get("tr")
        rk = f.get("rk") or f.get("k")
        cx = self.stdmodel.Ctx(self, fr, st, g, f, args, line, dty)
        if tr:
            key = sg(tr) + "::" + f["m"]
            h = self.models.get(key)
            if h is not None:
                r = h(cx)
                if r is not NotImplemented:
                    return r
        b = self.f.bodies.get(rk) or self.f.bodies.get(f.get("k"))
        if b is not None and b.kind in ("fn", "closure"):
            r = self.local_call(cx, b)
            if r is not NotImplemented:
                return r
        key = sg(name)
        h = self.models.get(key)
        if h is None:
            h = self.models.get(key.split("::")[-2] + "::" + key.split("::")[-1] if "::" in key else key)
        if h is not None:
            r = h(cx)
            if r is not NotImplemented:
                return r
        return self.stdmodel.unknown(cx)

    def local_call(self, cx, b):
        stub = self.stub_of(b)
        if stub is not None:
            return self.stdmodel.stub_call(cx, b, stub)
        h = self.models.get("local:" + b.crate + "::" + (b.name or ""))
        if h is not None:
            r = h(cx)
            if r is not NotImplemented:
                return r
        if any(b.k == s for s in cx.fr.stack) or b.k == cx.fr.b.k:
            return mk("rec", b.k)
        stack = cx.fr.stack + (cx.fr.b.k,)
        return self.call_body(b, cx.args, cx.st, cx.g, cx.fr.auth, stack)

    def stub_of(self, b):
        """(kind, blueprint, method) when b is an extern-blueprint stub"""
        r = getattr(self, "_stubs", None)
        if r is None:
            r = self._stubs = {}
        if b.k in r:
            return r[b.k]
        res = None
        for x in b.blocks:
            if x and x["t"][0] == "call" and "fn" in x["t"][1]:
                n = x["t"][1]["fn"]
                if n.endswith("ObjectStub::call_raw") or n.endswith("Blueprint::<C>::call_function_raw") or \
                        n.endswith("call_function_raw"):
                    ty = norm_crate(x["t"][1]["a"][0], b.crate)
                    method = None
                    for y in b.blocks:
                        if y:
                            for s in y["s"]:
                                if s[0] == "=" and s[2][0] == "use" and s[2][1][0] == "k" and s[2][1][1].get("s") is not None:
                                    method = s[2][1][1]["s"]
                                    break
                            a = y["t"]
                            if a[0] == "call":
                                for o in a[2]:
                                    if o[0] == "k" and o[1].get("s") is not None and method is None:
                                        method = o[1]["s"]
                    res = ("fn" if "call_function" in n else "method", ty.split("::")[-1], method or b.name, x["t"][1]["a"][-1])
                    break
        r[b.k] = res
        return res

    def call_value(self, fr, st, g, fv, args, line, auth=None):
        """call a closure / fn item value"""
        if isinstance(fv, T):
            if fv.op == "ref":
                inner = self.rd(st, fv.a[0], fv.a[1])
                if isinstance(inner, T) and inner.op == "clo":
                    return self.call_closure(fr, st, g, inner, args, line, fv, auth)
                return self.call_value(fr, st, g, inner, args, line, auth)
            if fv.op == "clo":
                return self.call_closure(fr, st, g, fv, args, line, None, auth)
            if fv.op == "fnitem":
                b = self.f.bodies.get(fv.a[1]) or self.f.bodies.get(fv.a[0])
                if b is not None and auth is not None:
                    return self.call_body(b, args, st, g, auth, fr.stack + (fr.b.k,))
                fd = FNITEMS.get(fv) or {"fn": fv.a[2], "k": fv.a[0], "rk": fv.a[1] or None, "a": []}
                c = self.constructor(fd, args) if b is None else None
                return c if c is not None else self.call_fn(fr, st, g, fd, args, line)
            if fv.op == "gate":
                outs = []
                res = []
                for w, gg in fv.a[0]:
                    s2 = st.copy()
                    res.append((self.call_value(fr, s2, pmul(g, gg), w, args, line, auth), gg))
                    outs.append((s2, gg))
                s3 = self.merge_states(fr, outs)
                st.store, st.known, st.ver = s3.store, s3.known, s3.ver
                return merge_all(res)
        self.unmodelled["dyncall:" + (fv.op if isinstance(fv, T) else "P")] = 1
        return mk("call", "dyn", fv, tuple(args))

    def constructor(self, fd, args):
        """a tuple struct or enum variant used as a function"""
        p = fd["fn"].split("::")
        if p[-1] == "Some" and len(args) == 1:
            return some(args[0])
        if p[-1] in ("Ok", "Err") and len(args) == 1 and "Result" in fd["fn"]:
            return mk("adt", "std::result::Result", p[-1], ("0",), (args[0],))
        for path, var in (("::".join(p[:-1]), p[-1]), ("::".join(p), p[-1])):
            a = self.f.adts.get(path)
            for v in a["variants"] if a else ():
                if v["n"] == var and len(v["f"]) == len(args) and all(n.isdigit() for n, _, _ in v["f"]):
                    return mk("adt", path, var, tuple(n for n, _, _ in v["f"]), tuple(args))
        return None

    def call_closure(self, fr, st, g, clo, args, line, place, auth=None):
        b = self.f.bodies.get(clo.a[0])
        if b is None:
            self.unmodelled["closure:" + clo.a[0]] = 1
            return mk("call", "closure", clo, tuple(args))
        envty = b.types[b.locals[1]] if b.n >= 1 else ""
        self.fresh += 1
        root = None
        if envty.startswith("&") or envty.startswith("{closure") is False and envty.startswith("&"):
            if place is not None:
                env = place
            else:
                root = ("E", self.fresh)
                st.store[root] = clo
                env = ref(root)
        else:
            env = clo
        stack = fr.stack + (fr.b.k,)
        v = self.call_body(b, [env] + list(args), st, g, auth if auth is not None else fr.auth, stack)
        if root is not None:
            st.store.pop(root, None)
        return v

    # ------------------------------------------------------------ loops
    def loop(self, fr, st, header, rpo, g):
        """MIR natural loop -> exits [(target, state, weight)]"""
        c = self.cfg(fr.b)

        def body(s, gg):
            rets, backs, exits = self.region(fr, s, rpo, header, header, gg)
            return rets, backs, exits

        return self.stdmodel.mir_loop(self, fr, st, header, body, g)

    # ------------------------------------------------------------ entry points
    def run_entry(self, b, argnames=None, assume=None):
        """Analyse an entry point with opaque arguments. Returns Result.

        assume: {argument: "none" | "some" | value}: analyse the case in which the argument has that shape."""
        self.trace = []
        self.nomut = False
        st = State()
        args = []
        selfroot = None
        for i in range(b.n):
            ty = b.types[b.locals[i + 1]]
            nm = b.names.get(i + 1, "a%d" % i)
            src = mk("arg", nm)
            if ty.startswith("&"):
                inner = re.sub(r"^&('\S+ )?(mut )?", "", ty)
                root = ("A", nm)
                v = self.coerce(src, inner)
                st.store[root] = v
                args.append(ref(root))
                if nm == "self":
                    selfroot = root
            elif assume and nm in assume:
                a = assume[nm]
                if a == "none":
                    a = NONE
                elif a == "some":
                    a = some(self.payload(self.coerce(src, ty)))
                args.append(a)
            else:
                args.append(self.coerce(src, ty))
                if nm == "self":
                    selfroot = ("self",)
        fr, v = self.eval_body(b, args, st, ONE, None, ())
        return Result(self, b, v, st, self.trace, selfroot)


class Result:
    def __init__(self, eng, b, ret, st, trace, selfroot):
        self.eng, self.b, self.ret, self.st, self.trace, self.selfroot = eng, b, ret, st, trace, selfroot

    @property
    def self_state(self):
        return self.st.store.get(self.selfroot)

    def events(self, kind=None, trace=None, pred=None):
        """flattened (event, loop-path) pairs in order"""
        out = []

        def rec(tr, path):
            for e in tr:
                if e.kind == "loop":
                    if kind == "loop" or kind is None:
                        out.append((e, path))
                    rec(e.sub, path + (e,))
                elif (kind is None or e.kind == kind) and (pred is None or pred(e)):
                    out.append((e, path))
        rec(trace if trace is not None else self.trace, ())
        return out


VER0 = mk("ver0")


def norm_crate(p, crate):
    if p.startswith("crate::"):
        return crate + p[5:]
    return p.replace("<crate::", "<" + crate + "::")


def facts_boolfields(f):
    s = set()
    for a in f.adts.values():
        for v in a["variants"]:
            for n, t, _ in v["f"]:
                if t == "bool" and not n.isdigit():
                    s.add(n)
                    s.add("@%s.%s" % (v["n"], n))
    return s


def as_bool(v):
    if isinstance(v, P):
        return v
    if v.op == "gate":
        return tm._sum([pmul(g, as_bool(w)) for w, g in v.a[0]])
    if v.op in INDS:
        return A(v)
    return A(mk("b", v))


INNER = {"scrypto::prelude::I192", "scrypto::prelude::I256"}


def as_num(v, ty=DEC):
    if isinstance(v, P):
        return v
    if v.op == "gate":
        return merge_all([(as_num(w, ty), g) for w, g in v.a[0]])
    if v.op in ("never", "uninit"):
        return A(v)
    if ty in INNER and v.op == "fld" and v.a[1] in ("raw", "0"):
        return as_num(v.a[0], DEC)          # the integer inside a Decimal stands for the Decimal
    if ty in UNSIGNED:
        tm.NONNEG.add(v)
    if ty == "bool":
        return as_bool(v)
    return A(v)


def vec_at(v, i):
    if isinstance(i, P) and i is A(mk("idx", v)):
        import stdmodel
        c, el, g = stdmodel.base_elem(v, "vec")
        if c is v and g is ONE:
            return el
    if v.op == "cat" and isinstance(i, P) and i.const() is not None:
        n = i.const()
        k = 0
        for s in v.a[0]:
            if s[0] != "one" or s[-1] is not ONE:
                break
            if k == n:
                return s[1]
            k += 1
    return mk("at", v, i)


def vec_set(v, i, x):
    if v.op == "cat" and isinstance(i, P) and i.const() is not None:
        n = i.const()
        if n < len(v.a[0]) and all(s[0] == "one" and s[-1] is ONE for s in v.a[0][:n + 1]):
            return mkcat(v.a[0][:n] + (("one", x, ONE),) + v.a[0][n + 1:])
    return mk("vecset", v, i, x)
