"""Hash-consed value terms.

T  - structural terms (opaque sources, structs, references, collections, ...)
P  - polynomials over atoms (T) with rational coefficients.  Booleans are polynomials over
     0/1 indicator atoms (idempotent, with exclusion rules), so that gated values
     `g*a + (1-g)*b`, sums and products have one canonical form and equality is identity.
"""
from fractions import Fraction

_tab = {}
_ptab = {}
_next = [0]


class T:
    __slots__ = ("op", "a", "id", "_deps", "ind", "ty")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __lt__(self, o):
        return self.id < o.id


INDS = frozenset(("lt", "eq", "b", "is", "eqv", "has", "any", "letb", "Hb", "more", "brk"))


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _next[0] += 1
        t.id = _next[0]
        t._deps = None
        t.ind = op in INDS
        t.ty = None
        _tab[key] = t
    if VALUES:
        return VALUES.get(t, t)
    return t


VALUES = {}         # facts of the case under analysis: term -> value it has


class P:
    __slots__ = ("d", "id", "_inds", "_deps", "_cf")

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return padd(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return padd(self, pscale(lift(o), -1))

    def __rsub__(self, o):
        return padd(lift(o), pscale(self, -1))

    def __mul__(self, o):
        return pmul(self, lift(o))

    __rmul__ = __mul__

    def __neg__(self):
        return pscale(self, -1)

    def __truediv__(self, o):
        return pdiv(self, lift(o))

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None


def _mkp(d):
    key = frozenset(d.items())
    p = _ptab.get(key)
    if p is None:
        p = P()
        p.d = d
        _next[0] += 1
        p.id = _next[0]
        p._inds = None
        p._deps = None
        p._cf = None
        _ptab[key] = p
    return p


def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def C(c):
    c = norm_c(Fraction(c)) if not isinstance(c, int) else c
    return _mkp({(): c}) if c else _mkp({})


ZERO = C(0)
ONE = C(1)


def A(t):
    """atom -> polynomial"""
    assert isinstance(t, T), t
    if KNOWN and t.ind:
        for a, v in KNOWN.items():
            x = _lit(t, a, v)
            if x is not None:
                return C(x)
    return _mkp({((t, 1),): 1})


KNOWN = {}          # facts of the case under analysis: indicator -> 0/1


BOOLF = set()


def lift(x):
    if isinstance(x, P):
        return x
    if isinstance(x, T):
        if x.op == "gate":
            return merge_all([(lift(v), g) for v, g in x.a[0]])
        if x.op == "fld" and x.a[1] in BOOLF:
            return A(mk("b", x))
        return A(x)
    return C(x)


def lift_like(x, o):
    """lift x beside the other branch o, which tells numbers and truth values apart when it is a polynomial"""
    if isinstance(x, T) and x.op == "fld" and x.a[1] in BOOLF and isinstance(o, P) and not is_bool(o):
        return A(x)
    return lift(x)


def padd(a, b):
    if not a.d:
        return b
    if not b.d:
        return a
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        n = d.get(m, 0) + c
        if n:
            d[m] = norm_c(n)
        else:
            d.pop(m, None)
    return _mkp(d)


def pscale(a, k):
    if k == 1:
        return a
    if not k:
        return ZERO
    return _mkp({m: norm_c(c * k) for m, c in a.d.items()})


def _conflict(atoms):
    """atoms: list of indicator atoms present (true). Returns None if contradictory, else reduced list."""
    lts = {}
    eqs = {}
    iss = {}
    evs = {}
    out = []
    for t in atoms:
        if t.op == "lt":
            b, c = t.a[0], t.a[1]
            o = lts.get(b)
            if o is None or c < o.a[1]:
                lts[b] = t
        elif t.op == "eq":
            b, c = t.a[0], t.a[1]
            o = eqs.get(b)
            if o is not None and o is not t:
                return None
            eqs[b] = t
        elif t.op == "is":
            o = iss.get(t.a[0])
            if o is not None and o is not t:
                return None
            iss[t.a[0]] = t
        elif t.op == "eqv":
            x, y = t.a
            if is_constant(x):
                x, y = y, x
            if is_constant(y):
                o = evs.get(x)
                if o is not None and o is not t:
                    return None
                evs[x] = t
            else:
                out.append(t)
        else:
            out.append(t)
    for b, t in eqs.items():
        l = lts.pop(b, None)
        if l is not None and not (t.a[1] < l.a[1]):
            return None
        out.append(t)
    out.extend(lts.values())
    out.extend(iss.values())
    out.extend(evs.values())
    return out


def _mono_mul(m1, m2):
    """product of monomials -> monomial or None (zero)"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    ni = 0
    for t, e in m2:
        if t.ind:
            d[t] = 1
        else:
            n = d.get(t, 0) + e
            if n:
                d[t] = n
            else:
                d.pop(t, None)
    inds = [t for t in d if t.ind]
    if len(inds) > 1:
        r = _conflict(inds)
        if r is None:
            return None
        if len(r) != len(inds):
            for t in inds:
                del d[t]
            for t in r:
                d[t] = 1
    return tuple(sorted(d.items(), key=_akey))


def _akey(x):
    return x[0].id


LIMIT = 900


def _lead_atom(base):
    """(atom, coef) when the leading monomial of base is a single linear atom"""
    m = max(base.d, key=_mkey)
    if len(m) == 1 and m[0][1] == 1 and not m[0][0].ind:
        return m[0][0], base.d[m]
    return None


def _mkey(m):
    return (sum(abs(e) for _, e in m), tuple((t.id, e) for t, e in m))


def _eqreduce(m, c):
    """rewrite a monomial containing eq(base,k): the leading atom of base is base-determined"""
    for t, _ in m:
        if t.op == "eq":
            la = _lead_atom(t.a[0])
            if la is None:
                continue
            x, k = la
            for u, e in m:
                if u is x:
                    if e < 0:
                        break
                    rest = tuple(z for z in m if z[0] is not x)
                    val = pscale(padd(C(t.a[1]), pscale(padd(t.a[0], pscale(A(x), -k)), -1)), Fraction(1) / k)
                    r = _mkp({rest: c})
                    for _ in range(e):
                        r = pmul(r, val)
                    return r
    return None


def pmul(a, b):
    if not a.d or not b.d:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None:
        return pscale(b, ca)
    if cb is not None:
        return pscale(a, cb)
    if len(a.d) * len(b.d) > LIMIT:
        if len(a.d) >= len(b.d):
            a = let(a)
        else:
            b = let(b)
        if len(a.d) * len(b.d) > LIMIT:
            a = let(a)
            b = let(b)
    d = {}
    extra = None
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = _mono_mul(m1, m2)
            if m is None:
                continue
            c = c1 * c2
            n = d.get(m, 0) + c
            if n:
                d[m] = norm_c(n)
            else:
                d.pop(m, None)
    bad = [m for m in d if any(t.op == "eq" for t, _ in m)]
    for m in bad:
        r = _eqreduce(m, d[m])
        if r is not None:
            del d[m]
            extra = r if extra is None else padd(extra, r)
    p = _mkp(d)
    if extra is not None:
        p = padd(p, extra)
    return p


def is_bool(p):
    """all atoms are indicators (so the polynomial is a function of booleans)"""
    for m in p.d:
        for t, _ in m:
            if not t.ind:
                return False
    return True


def let(p):
    if len(p.d) <= 1:
        return p
    if is_bool(p):
        return A(mk("letb", p))
    m = max(p.d, key=_mkey)
    k = p.d[m]
    q = pscale(p, Fraction(1) / k) if k != 1 else p
    return pscale(A(mk("let", q)), k)


def pdiv(a, b):
    cb = b.const()
    if cb is not None:
        if cb == 0:
            return pmul(a, A(mk("inv", ZERO)))
        return pscale(a, Fraction(1) / cb)
    inds = p_inds(b)
    if inds and len(inds) <= 8:
        t = min(inds, key=lambda t: t.id)
        g = A(t)
        return padd(pmul(g, pdiv(cof(a, t, 1), cof(b, t, 1))), pmul(ONE - g, pdiv(cof(a, t, 0), cof(b, t, 0))))
    if len(b.d) == 1:
        (m, c), = b.d.items()
        inv = _mkp({tuple((t, -e) for t, e in m): norm_c(Fraction(1) / c)})
        return pmul(a, inv)
    m = max(b.d, key=_mkey)
    k = b.d[m]
    q = pscale(b, Fraction(1) / k)
    # exact multiple
    ma = max(a.d, key=_mkey) if a.d else None
    if ma is not None:
        r = a.d[ma] * Fraction(1) / q.d.get(ma, 1) if ma in q.d else None
        if r is not None and pscale(q, norm_c(r)) is a:
            return C(norm_c(r / k))
    return pscale(pmul(a, A(mk("inv", q))), Fraction(1) / k)


# ---------------------------------------------------------------- indicators
def p_inds(p):
    if p._inds is None:
        s = set()
        for m in p.d:
            for t, _ in m:
                if t.ind:
                    s.add(t)
        p._inds = frozenset(s)
    return p._inds


def _lit(t, a, v):
    """value of indicator t given indicator a == v: 0, 1 or None"""
    if t is a:
        return v
    if a.op in ("lt", "eq") and t.op in ("lt", "eq") and t.a[0] is a.a[0]:
        ca, ct = a.a[1], t.a[1]
        if a.op == "lt":
            if v:
                if t.op == "lt":
                    return 1 if ct >= ca else None
                return 0 if ct >= ca else None
            if t.op == "lt":
                return 0 if ct <= ca else None
            return 0 if ct < ca else None
        if v:
            if t.op == "lt":
                return 1 if ca < ct else 0
            return 0
        return None
    if a.op == "is" and t.op == "is" and a.a[0] is t.a[0] and v:
        return 0
    if a.op == "eqv" and t.op == "eqv" and v:
        for i in (0, 1):
            for j in (0, 1):
                if a.a[i] is t.a[j] and is_constant(a.a[1 - i]) and is_constant(t.a[1 - j]):
                    return 0
    return None


def cof(p, a, v):
    """cofactor of p under indicator a == v"""
    if p._cf is None:
        p._cf = {}
    k = (a, v)
    r = p._cf.get(k)
    if r is not None:
        return r
    hit = False
    for t in p_inds(p):
        if _lit(t, a, v) is not None:
            hit = True
            break
    if not hit:
        p._cf[k] = p
        return p
    d = {}
    for m, c in p.d.items():
        out = []
        zero = False
        for t, e in m:
            x = _lit(t, a, v) if t.ind else None
            if x is None:
                out.append((t, e))
            elif x == 0:
                zero = True
                break
        if zero:
            continue
        m2 = tuple(out)
        n = d.get(m2, 0) + c
        if n:
            d[m2] = norm_c(n)
        else:
            d.pop(m2, None)
    r = _mkp(d)
    p._cf[k] = r
    return r


def assume(p, known):
    """known: dict indicator -> 0/1"""
    if not known:
        return p
    for _ in range(3):
        hit = False
        for t in p_inds(p):
            if t in known:
                p = cof(p, t, known[t])
                hit = True
                break
        else:
            # implied literals
            for t in p_inds(p):
                if t.op in ("lt", "eq", "is", "eqv"):
                    for a, v in known.items():
                        if a.op in ("lt", "eq", "is", "eqv") and _lit(t, a, v) is not None:
                            p = cof(p, a, v)
                            hit = True
                            break
                    if hit:
                        break
        while hit:
            hit = False
            for t in p_inds(p):
                if t in known:
                    p = cof(p, t, known[t])
                    hit = True
                    break
    return p


def _canon(p):
    """p -> (base, c, sign): p = k*(base) - ... such that p<0 <=> base<c if sign>0 else base>c"""
    c0 = p.d.get((), 0)
    d = {m: c for m, c in p.d.items() if m != ()}
    m = max(d, key=_mkey)
    k = d[m]
    base = _mkp({x: norm_c(c / Fraction(k)) for x, c in d.items()})
    return base, norm_c(Fraction(-c0) / k), 1 if k > 0 else -1


NONNEG = set()      # atoms (T) known to be unsigned


def nonneg(p):
    for m, c in p.d.items():
        if c < 0:
            return False
        for t, e in m:
            if not (t.ind or t in NONNEG or e % 2 == 0):
                return False
    return True


def atom_sign(t):
    """what the case facts say about the sign of an atom: 1, -1, 0 or None"""
    a = _mkp({((t, 1),): 1})
    lt = KNOWN.get(mk("lt", a, 0))
    if lt == 1:
        return -1
    eq = KNOWN.get(mk("eq", a, 0))
    if eq == 1:
        return 0
    if lt == 0 and eq == 0 or eq == 0 and t in NONNEG:
        return 1
    return None


def _unfactor(p):
    """p -> (q, sign): p = q times factors whose sign is known non-zero; and the sign of p itself if decided"""
    if () in p.d and len(p.d) == 1:
        return p, 1, None
    com = None
    sgs = {}
    for m in p.d:
        ms = {}
        for t, e in m:
            if t.ind:
                return p, 1, None
            ms[t] = e
            if t not in sgs:
                sgs[t] = atom_sign(t)
        if com is None:
            com = ms
        else:
            com = {t: min(e, ms[t]) for t, e in com.items() if t in ms}
    tot = set()
    for m, c in p.d.items():
        s = 1 if c > 0 else -1
        for t, e in m:
            g = sgs[t]
            if g is None or g == 0:
                s = None
                break
            if e % 2 and g < 0:
                s = -s
        tot.add(s)
    if len(tot) == 1 and None not in tot:
        return p, 1, tot.pop()
    sg = 1
    cut = {}
    for t, e in com.items():
        if sgs[t] and e:
            cut[t] = e
            if e % 2 and sgs[t] < 0:
                sg = -sg
    if cut:
        d = {}
        for m, c in p.d.items():
            d[tuple((t, e - cut.get(t, 0)) for t, e in m if e != cut.get(t, 0))] = c
        p = _mkp(d)
    return p, sg, None


def small(base, k):
    """an enumeration-like field below a small bound: one of few values"""
    if k > 3 or len(base.d) != 1:
        return False
    (m, c), = base.d.items()
    return c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("fld", "arg")


def lt0(p, integer=False):
    """indicator polynomial for p < 0"""
    if KNOWN and not integer and p.d:
        p, sg, tot = _unfactor(p)
        if tot:
            return ONE if tot < 0 else ZERO
        if sg < 0:
            p = pscale(p, -1)
    c = p.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    inds = p_inds(p)
    if inds:
        if len(inds) > 10:
            p = let(p)
        else:
            t = min(inds, key=lambda t: t.id)
            g = A(t)
            x, y = lt0(cof(p, t, 1), integer), lt0(cof(p, t, 0), integer)
            if x is y:
                return x
            return padd(pmul(g, x), pmul(ONE - g, y))
    base, k, s = _canon(p)
    if integer:
        import math
        # base integral (coefficients integral) : base<k  or base>k
        if all(isinstance(c, int) for c in base.d.values()):
            if s > 0:
                k2 = math.ceil(k)
                if nonneg(base):
                    if k2 <= 0:
                        return ZERO
                    if k2 == 1:
                        return A(mk("eq", base, 0))
                    if small(base, k2):
                        return _sum([A(mk("eq", base, i)) for i in range(k2)])
                return A(mk("lt", base, k2))
            k2 = math.floor(k) + 1          # base >= k2
            if nonneg(base):
                if k2 <= 0:
                    return ONE
                if k2 == 1:
                    return ONE - A(mk("eq", base, 0))
                if small(base, k2):
                    return ONE - _sum([A(mk("eq", base, i)) for i in range(k2)])
            return ONE - A(mk("lt", base, k2))
    if s > 0:
        return A(mk("lt", base, k))
    return ONE - A(mk("lt", base, k)) - A(mk("eq", base, k))


def eq0(p, integer=False):
    if KNOWN and not integer and p.d:
        p, sg, tot = _unfactor(p)
        if tot:
            return ZERO
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    inds = p_inds(p)
    if inds:
        if len(inds) > 10:
            p = let(p)
        else:
            t = min(inds, key=lambda t: t.id)
            g = A(t)
            x, y = eq0(cof(p, t, 1), integer), eq0(cof(p, t, 0), integer)
            if x is y:
                return x
            return padd(pmul(g, x), pmul(ONE - g, y))
    base, k, s = _canon(p)
    return A(mk("eq", base, k))


def le0(p, integer=False):
    if integer:
        return lt0(p - 1, True)
    return padd(lt0(p), eq0(p))


def b_not(p):
    return ONE - p


def b_and(a, b):
    return pmul(a, b)


def b_or(a, b):
    return a + b - pmul(a, b)


def pabs(p):
    c = p.const()
    if c is not None:
        return C(abs(c))
    return pmul(p, ONE - 2 * lt0(p))


def pmin(a, b):
    return a + pmul(b - a, lt0(b - a))


def pmax(a, b):
    return a + pmul(b - a, lt0(a - b))


# ---------------------------------------------------------------- dependencies, substitution
BINDERS = frozenset(("sum", "any", "mapcomp", "maploop", "fold", "found"))
BOUND = frozenset(("elem", "key", "idx"))


def deps(x):
    """free bound-variable symbols ('elem','key','idx','H..') in x"""
    if isinstance(x, T):
        if x._deps is None:
            s = set()
            for y in x.a:
                s |= deps(y)
            if x.op in ("elem", "key", "idx"):
                s = {x}
            elif x.op in ("H", "Hb", "Hm", "more", "brk"):
                s.add(x)
            elif x.op in BINDERS:
                coll = x.a[0]
                s = set(y for z in x.a[1:] for y in deps(z) if not (y.op in BOUND and y.a[0] is coll))
                s |= deps(coll)
                if x.op == "maploop":
                    s |= deps(x.a[1])
            elif x.op == "cat":
                s = set()
                for sg in x.a[0]:
                    if sg[0] in ("comp", "flat"):
                        s |= deps(sg[1])
                        s |= {y for y in deps(sg[2:]) if not (y.op in BOUND and y.a[0] is sg[1])}
                    else:
                        s |= deps(sg[1:])
            x._deps = frozenset(s)
        return x._deps
    if isinstance(x, P):
        if x._deps is None:
            s = set()
            for m in x.d:
                for t, _ in m:
                    s |= deps(t)
            x._deps = frozenset(s)
        return x._deps
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s |= deps(y)
        return s
    return frozenset()


def atoms_of(p):
    s = set()
    for m in p.d:
        for t, _ in m:
            s.add(t)
    return s


def subterms(x, seen=None):
    """all T subterms"""
    if seen is None:
        seen = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, T):
            if y in seen:
                continue
            seen.add(y)
            st.extend(y.a)
        elif isinstance(y, P):
            if y in seen:
                continue
            seen.add(y)
            for m in y.d:
                for t, _ in m:
                    st.append(t)
        elif isinstance(y, tuple):
            st.extend(y)
    return {y for y in seen if isinstance(y, T)}


REBUILD = {}


def subst(x, f, memo=None):
    """f: dict T -> value (T or P). Rebuilds through the smart constructors."""
    if memo is None:
        memo = {}
    return _subst(x, f, memo)


def _subst(x, f, memo):
    if isinstance(x, T):
        if x in f:
            return f[x]
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in BINDERS and any(y.op in BOUND and y.a[0] is x.a[0] for y in f):
            # the symbols of this collection are bound below
            f2 = {y: v for y, v in f.items() if not (y.op in BOUND and y.a[0] is x.a[0])}
            m2 = {}
            na = (_subst(x.a[0], f, memo),) + tuple(_subst(y, f2, m2) for y in x.a[1:])
            if x.op == "maploop":
                na = na[:1] + (_subst(x.a[1], f, memo),) + na[2:]
        elif x.op == "cat":
            out = []
            for sg in x.a[0]:
                if sg[0] in ("comp", "flat") and any(y.op in BOUND and y.a[0] is sg[1] for y in f):
                    f2 = {y: v for y, v in f.items() if not (y.op in BOUND and y.a[0] is sg[1])}
                    out.append((sg[0], _subst(sg[1], f, memo)) + tuple(_subst(z, f2, {}) for z in sg[2:]))
                else:
                    out.append((sg[0],) + tuple(_subst(z, f, memo) for z in sg[1:]))
            na = (tuple(out),)
        else:
            na = tuple(_subst(y, f, memo) for y in x.a)
        if na == x.a:
            r = x
        else:
            h = REBUILD.get(x.op)
            r = h(*na) if h else mk(x.op, *na)
        memo[x] = r
        return r
    if isinstance(x, P):
        r = memo.get(x)
        if r is not None:
            return r
        changed = {}
        for t in atoms_of(x):
            n = _subst(t, f, memo)
            if n is not t:
                changed[t] = n
        if not changed:
            r = x
        else:
            r = ZERO
            for m, c in x.d.items():
                q = C(c)
                for t, e in m:
                    n = changed.get(t)
                    if n is None:
                        q = pmul(q, _mkp({((t, e),): 1}))
                    else:
                        n = lift(n)
                        if e > 0:
                            for _ in range(e):
                                q = pmul(q, n)
                        else:
                            for _ in range(-e):
                                q = pdiv(q, n)
                r = padd(r, q)
        memo[x] = r
        return r
    if isinstance(x, tuple):
        n = tuple(_subst(y, f, memo) for y in x)
        return n if n != x else x
    return x


REBUILD["lt"] = lambda b, c: lt0(lift(b) - C(c))
REBUILD["eq"] = lambda b, c: eq0(lift(b) - C(c))
REBUILD["inv"] = lambda q: pdiv(ONE, lift(q))
REBUILD["let"] = lambda q: let(q)
REBUILD["letb"] = lambda q: let(q)


# ---------------------------------------------------------------- constants / equality of opaque terms
def is_constant(x):
    if isinstance(x, P):
        return x.const() is not None
    if x.op in ("str", "const", "bytes", "unit"):
        return True
    if x.op == "adt":
        return all(is_constant(y) for y in x.a[3])
    if x.op == "tup":
        return all(is_constant(y) for y in x.a[0])
    return False


def gate(leaves):
    """leaves: iterable of (value T, guard P) -> T"""
    acc = {}
    for v, g in leaves:
        if isinstance(v, T) and v.op == "gate":
            for w, h in v.a[0]:
                x = pmul(g, h)
                acc[w] = acc[w] + x if w in acc else x
        else:
            acc[v] = acc[v] + g if v in acc else g
    acc = {v: g for v, g in acc.items() if g.d}
    if len(acc) == 1:
        return next(iter(acc))
    if not acc:
        return mk("never")
    return mk("gate", tuple(sorted(acc.items(), key=lambda x: x[0].id)))


REBUILD["gate"] = lambda l: merge_all([(v, lift(g)) for v, g in l])


def merge_all(l):
    """list of (value, guard), guards summing to 1 in context"""
    if len(l) == 1:
        return l[0][0]
    v = l[-1][0]
    for w, g in reversed(l[:-1]):
        v = ite(g, w, v)
    return v


def round_(a, strat):
    """a rounded to what a token can hold; nothing stays nothing"""
    a = lift(a)
    return A(mk("round", a, strat)) if a.d else ZERO


REBUILD["round"] = round_


def segs(v):
    """vec value as tuple of segments"""
    if v.op == "cat":
        return v.a[0]
    return (("all", v, ONE),)


def mkcat(sg):
    sg = tuple(s for s in sg if s[-1].d)
    if len(sg) == 1 and sg[0][0] == "all" and sg[0][2] is ONE:
        return sg[0][1]
    return mk("cat", sg)


REBUILD["cat"] = lambda s: mkcat(tuple(x[:-1] + (lift(x[-1]),) for x in s))


def map_chain(m):
    """m -> (base, [(k,v,p)...]) innermost first"""
    w = []
    while m.op == "mapw":
        w.append(m.a[1:])
        m = m.a[0]
    w.reverse()
    return m, w


UNITV = mk("unit")


def ite(g, a, b):
    """value = a if g else b"""
    if a is b:
        return a
    if not g.d:
        return b
    if g is ONE:
        return a
    if isinstance(a, P) or isinstance(b, P):
        if not (isinstance(a, P) and isinstance(b, P)):
            if isinstance(a, T) and a.op in ("never", "uninit"):
                return b
            if isinstance(b, T) and b.op in ("never", "uninit"):
                return a
            a, b = lift_like(a, b), lift_like(b, a)
        # simplify the branches under the guard's literals
        inds = p_inds(g)
        if len(g.d) == 1 and g.d.get(next(iter(g.d))) == 1:
            for t in inds:
                a = cof(a, t, 1)
            if len(inds) == 1:
                b = cof(b, next(iter(inds)), 0)
        elif len(inds) == 1:
            t = next(iter(inds))
            if g is ONE - A(t):
                a = cof(a, t, 0)
                b = cof(b, t, 1)
        if a is b:
            return a
        d = a - b
        if len(g.d) * len(d.d) > LIMIT:
            g2 = let(g) if len(g.d) > 8 else g
            if len(g2.d) * len(d.d) > LIMIT:
                return padd(let(b), pmul(g2, let(a) - let(b)))
            return padd(b, pmul(g2, d))
        return padd(b, pmul(g, d))
    if a.op in ("never", "uninit"):
        return b
    if b.op in ("never", "uninit"):
        return a
    # members of a set
    if a is UNITV and b.op == "at" or b is UNITV and a.op == "at":
        return UNITV
    if a.op == b.op:
        if a.op == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and a.a[2] == b.a[2]:
            return mk("adt", a.a[0], a.a[1], a.a[2], tuple(ite(g, x, y) for x, y in zip(a.a[3], b.a[3])))
        if a.op == "tup" and len(a.a[0]) == len(b.a[0]):
            return mk("tup", tuple(ite(g, x, y) for x, y in zip(a.a[0], b.a[0])))
        if a.op == "clo" and a.a[0] == b.a[0]:
            return mk("clo", a.a[0], tuple(ite(g, x, y) for x, y in zip(a.a[1], b.a[1])))
    for x, y, gx in ((a, b, g), (b, a, ONE - g)):
        # a rebuilt struct and one that was only read
        if x.op == "adt" and y.op in ("fld", "upd", "at", "ret", "arg", "elem") and x.a[2] and \
                x.a[1] == x.a[0].split("::")[-1]:
            return mk("adt", x.a[0], x.a[1], x.a[2], tuple(
                ite(gx, v, opaque_field(y, n, v)) for n, v in zip(x.a[2], x.a[3])))
    if a.op in ("cat",) or b.op in ("cat",):
        sa, sb = segs(a), segs(b)
        n = 0
        out = []
        while n < len(sa) and n < len(sb) and sa[n][:-1] == sb[n][:-1]:
            out.append(sa[n][:-1] + (ite(g, sa[n][-1], sb[n][-1]),))
            n += 1
        if n or not sa or not sb or (sa[0][0] != "all" and sb[0][0] != "all"):
            out += [s[:-1] + (pmul(g, s[-1]),) for s in sa[n:]]
            out += [s[:-1] + (pmul(ONE - g, s[-1]),) for s in sb[n:]]
            return mkcat(out)
    if a.op == "mapw" or b.op == "mapw":
        ba, wa = map_chain(a)
        bb, wb = map_chain(b)
        if ba is bb:
            n = 0
            cur = ba
            while n < len(wa) and n < len(wb) and wa[n] == wb[n]:
                cur = mapw(cur, *wa[n])
                n += 1
            ra, rb = wa[n:], wb[n:]
            while ra and rb and ra[0][0] is rb[0][0]:
                k = ra[0][0]
                cur = mapw(cur, k, ite(g, ra[0][1], rb[0][1]), ite(g, ra[0][2], rb[0][2]))
                ra, rb = ra[1:], rb[1:]
            for k, v, p in ra:
                cur = mapw(cur, k, ite(g, v, map_at(cur, k)), ite(g, p, map_has(cur, k)))
            for k, v, p in rb:
                cur = mapw(cur, k, ite(g, map_at(cur, k), v), ite(g, map_has(cur, k), p))
            return cur
    if a.op == "upd" or b.op == "upd":
        xa = a.a[0] if a.op == "upd" else a
        xb = b.a[0] if b.op == "upd" else b
        if xa is xb:
            da = dict(a.a[1]) if a.op == "upd" else {}
            db = dict(b.a[1]) if b.op == "upd" else {}
            r = xa
            for n in list(da) + [n for n in db if n not in da]:
                va = da[n] if n in da else None
                vb = db[n] if n in db else None
                if va is None:
                    va = opaque_field(xa, n, vb)
                if vb is None:
                    vb = opaque_field(xb, n, va)
                r = set_field(r, n, ite(g, va, vb))
            return r
    return gate([(a, g), (b, ONE - g)])


def opaque_field(base, n, like):
    t = proj(base, n)
    if isinstance(like, P) and isinstance(t, T):
        return A(t)
    return t


def proj(v, n):
    """field n of a struct/tuple value"""
    if isinstance(v, P):
        return v
    op = v.op
    if op in ("never", "uninit"):
        return v
    if op == "adt":
        names = v.a[2]
        if n[0] == "@":
            variant, n = n[1:].split(".", 1)
            if variant != v.a[1]:
                return mk("never")
        if n in names:
            return v.a[3][names.index(n)]
        return mk("fld", v, n)
    if op == "tup" or op == "clo":
        xs = v.a[0] if op == "tup" else v.a[1]
        try:
            return xs[int(n)]
        except (ValueError, IndexError):
            return mk("fld", v, n)
    if op == "upd":
        for k, x in v.a[1]:
            if k == n:
                return x
        return proj(v.a[0], n)
    if op == "gate":
        return merge_all([(proj(w, n), g) for w, g in v.a[0]])
    if op == "entry" and n in ("@Occupied.0", "@Vacant.0"):
        return v
    return mk("fld", v, n)


def set_field(v, n, x):
    if isinstance(v, P):
        return x
    if v.op == "adt" and n[0] == "@" and v.a[1] == n[1:].split(".", 1)[0]:
        n = n.split(".", 1)[1]
    elif v.op == "adt" and n[0] == "@":
        return v
    if v.op == "adt" and n in v.a[2]:
        i = v.a[2].index(n)
        return mk("adt", v.a[0], v.a[1], v.a[2], v.a[3][:i] + (x,) + v.a[3][i + 1:])
    if v.op in ("tup",):
        i = int(n)
        return mk("tup", v.a[0][:i] + (x,) + v.a[0][i + 1:])
    if v.op == "clo":
        i = int(n)
        return mk("clo", v.a[0], v.a[1][:i] + (x,) + v.a[1][i + 1:])
    if v.op == "gate":
        return gate([(set_field(w, n, x), g) for w, g in v.a[0]])
    if v.op == "upd":
        d = dict(v.a[1])
        d[n] = x
        o = mk("fld", v.a[0], n)
        if x is o or (isinstance(x, P) and x is A(o)):
            del d[n]
            if not d:
                return v.a[0]
        return mk("upd", v.a[0], tuple(sorted(d.items())))
    o = mk("fld", v, n)
    if x is o or (isinstance(x, P) and x is A(o)):
        return v
    return mk("upd", v, ((n, x),))


REBUILD["fld"] = proj
REBUILD["upd"] = lambda b, l: _reupd(b, l)


def _reupd(b, l):
    for n, x in l:
        b = set_field(b, n, x)
    return b


# ---------------------------------------------------------------- maps
def eqv(a, b):
    if a is b:
        return ONE
    if isinstance(a, P) or isinstance(b, P):
        return eq0(lift(a) - lift(b), True)
    if a.op == "gate" and len(a.a[0]) <= 6:
        return _sum([pmul(g, eqv(v, b)) for v, g in a.a[0]])
    if b.op == "gate" and len(b.a[0]) <= 6:
        return eqv(b, a)
    if a.op == b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return ZERO
        r = ONE
        for x, y in zip(a.a[3], b.a[3]):
            r = pmul(r, eqv(x, y))
        return r
    if a.op == b.op == "tup":
        r = ONE
        for x, y in zip(a.a[0], b.a[0]):
            r = pmul(r, eqv(x, y))
        return r
    if is_constant(a) and is_constant(b):
        return ZERO
    if a.id > b.id:
        a, b = b, a
    return A(mk("eqv", a, b))


REBUILD["eqv"] = eqv


def _sum(l):
    r = ZERO
    for x in l:
        r = r + x
    return r


def mapw(m, k, v, p):
    if m.op == "gate":
        pass
    if m.op == "mapw" and m.a[1] is k:
        return mapw(m.a[0], k, v, p)
    # a write under a key already written, with only other keys written since
    x, above = m, []
    while x.op == "mapw" and len(above) < 12:
        if x.a[1] is k:
            m = mapw(x.a[0], k, v, p)
            for kk, vv, pp in reversed(above):
                m = mk("mapw", m, kk, vv, pp)
            return m
        if eqv(x.a[1], k).d:
            break
        above.append(x.a[1:])
        x = x.a[0]
    # writing back what is there
    if m.op != "mapw" and p is map_has(m, k) and (v is map_at(m, k) or (isinstance(v, P) and v is lift(map_at(m, k)))):
        return m
    return mk("mapw", m, k, v, p)


REBUILD["mapw"] = lambda m, k, v, p: mapw(m, k, v, lift(p))


def same_keys(m, c):
    """m certainly contains every key of c (m is c with values rewritten)"""
    n = 0
    while n < 30:
        if m is c:
            return True
        if m.op == "mapw" and m.a[3] is ONE:
            m = m.a[0]
        elif m.op == "maploop" and all(w[2] is ONE for w in m.a[2]):
            m = m.a[1]
        elif m.op == "Hm":
            m = m.a[2]
        else:
            return False
        n += 1
    return False


def map_has(m, k):
    if m.op == "mapnew":
        return ZERO
    if isinstance(k, T) and k.op == "key":
        if k.a[0] is m or same_keys(m, k.a[0]):
            return ONE
    if m.op == "mapw":
        e = eqv(k, m.a[1])
        if e is ONE:
            return m.a[3]
        return pmul(e, m.a[3]) + pmul(ONE - e, map_has(m.a[0], k))
    if m.op == "gate":
        return _sum([pmul(g, map_has(v, k)) for v, g in m.a[0]])
    if m.op == "mapcomp":
        coll, kk, vv, g = m.a
        s = comp_key_subst(coll, kk, k)
        if s is not None:
            return pmul(map_has(coll, k), subst(g, s))
    if m.op == "Hm" and k is mk("key", m.a[0]):
        return map_has(m.a[2], k)
    if m.op == "maploop":
        coll, m0, w = m.a
        if loop_keyed(m):
            h = map_has(coll, k)
            return pmul(h, subst(w[-1][2], {mk("key", coll): k})) + pmul(ONE - h, map_has(m0, k))
    return A(mk("has", m, k))


def map_at(m, k):
    if m.op == "mapw":
        e = eqv(k, m.a[1])
        return ite(e, m.a[2], map_at(m.a[0], k))
    if m.op == "gate":
        return merge_all([(map_at(v, k), g) for v, g in m.a[0]])
    if m.op == "mapnew":
        return mk("never")
    if m.op == "mapcomp":
        coll, kk, vv, g = m.a
        s = comp_key_subst(coll, kk, k)
        if s is None and isinstance(kk, T) and kk.op == "elem" and kk.a[0] is coll and not any(
                y.op in ("key", "idx") and y.a[0] is coll for y in deps(vv)):
            s = {kk: k}
        if s is not None:
            return subst(vv, s)
    if m.op == "Hm" and k is mk("key", m.a[0]):
        return map_at(m.a[2], k)
    if m.op == "maploop":
        coll, m0, w = m.a
        if loop_keyed(m):
            return ite(map_has(coll, k), subst(w[-1][1], {mk("key", coll): k}), map_at(m0, k))
    return mk("at", m, k)


def loop_keyed(m):
    """maploop writing only the current key of a collection with distinct keys"""
    coll, m0, w = m.a
    return len(w) == 1 and w[0][0] is mk("key", coll) and is_mapish(coll)


def comp_key_subst(coll, kk, k):
    """mapcomp over the entries/elements of coll whose key is the element key itself"""
    if isinstance(kk, T) and kk.op == "key" and kk.a[0] is coll and is_mapish(coll):
        return {kk: k}
    if isinstance(kk, T) and kk.op == "elem" and kk.a[0] is coll and is_mapish(coll):
        return {kk: k}
    return None


def is_mapish(coll):
    if coll.op in ("mapw", "mapnew", "mapcomp", "maploop", "Hm"):
        return True
    return coll in MAPS


MAPS = set()
REBUILD["at"] = map_at
REBUILD["has"] = map_has


COLL_LEN = None


def mksum(coll, body):
    """sum over the elements of coll of body (P over elem symbols of coll)"""
    r = ZERO
    for m, c in body.d.items():
        dep, ind = [], []
        for t, e in m:
            if any(y.op in ("elem", "key", "idx") and y.a[0] is coll for y in deps(t)):
                dep.append((t, e))
            else:
                ind.append((t, e))
        s = A(mk("sum", coll, _mkp({tuple(dep): 1}))) if dep or COLL_LEN is None else COLL_LEN(coll)
        r = r + pmul(_mkp({tuple(ind): c}), s)
    return r


def _resum(coll, body):
    return mksum(coll, lift(body))


REBUILD["sum"] = _resum


def sought(coll, cond):
    """x when cond says that the element of coll (the key, for a map) equals x"""
    if len(cond.d) != 1:
        return None
    (m, c), = cond.d.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    t = m[0][0]
    el = mk("key", coll) if is_mapish(coll) else mk("elem", coll)
    ties = lambda v: any(y.op in ("elem", "key", "idx") and y.a[0] is coll for y in deps(v))
    if t.op == "eqv":
        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if x is el and not ties(y):
                return y
    elif t.op == "eq":
        p = t.a[0] - C(t.a[1])
        k = p.d.get(((el, 1),))
        if k in (1, -1):
            r = pscale(p - pscale(A(el), k), -k)
            if not ties(r):
                return r if is_mapish(coll) else r_elem(r)
    return None


def r_elem(r):
    """a number as an element of a list"""
    if isinstance(r, T):
        return r
    if len(r.d) == 1:
        (m, c), = r.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("num", r)


def mkany(coll, cond):
    if not cond.d:
        return ZERO
    x = sought(coll, cond)
    if x is not None:
        return map_has(coll, x)
    return A(mk("any", coll, cond))


REBUILD["any"] = lambda c, b: mkany(c, lift(b))


# ---------------------------------------------------------------- printing
def show(x, depth=7):
    if isinstance(x, P):
        if not x.d:
            return "0"
        if depth <= 0:
            return "<poly%d>" % len(x.d)
        parts = []
        items = sorted(x.d.items(), key=lambda z: _mkey(z[0]))
        for i, (m, c) in enumerate(items):
            if i >= 14:
                parts.append("...%d more" % (len(items) - i))
                break
            s = "*".join(show(t, depth - 1) + ("^%d" % e if e != 1 else "") for t, e in m)
            if not s:
                parts.append(str(c))
            elif c == 1:
                parts.append(s)
            elif c == -1:
                parts.append("-" + s)
            else:
                parts.append("%s*%s" % (c, s))
        return "(" + " + ".join(parts).replace("+ -", "- ") + ")" if len(parts) > 1 else parts[0]
    if isinstance(x, tuple):
        if depth <= 0:
            return "(..)"
        return "(" + ",".join(show(y, depth - 1) for y in x) + ")"
    if not isinstance(x, T):
        return str(x)
    if depth <= 0:
        return "…"
    o, a = x.op, x.a
    if o == "fld":
        return show(a[0], depth - 1) + "." + str(a[1])
    if o == "vf":
        return "%s@%s.%s" % (show(a[0], depth - 1), a[1], a[2])
    if o == "arg":
        return str(a[-1])
    if o == "str":
        return repr(a[0])
    if o == "lt":
        return "[%s<%s]" % (show(a[0], depth - 1), a[1])
    if o == "eq":
        return "[%s==%s]" % (show(a[0], depth - 1), a[1])
    if o == "eqv":
        return "[%s≡%s]" % (show(a[0], depth - 1), show(a[1], depth - 1))
    if o == "is":
        return "[%s is %s]" % (show(a[0], depth - 1), a[1])
    if o == "b":
        return "[%s]" % show(a[0], depth - 1)
    if o == "has":
        return "[%s∋%s]" % (show(a[0], depth - 1), show(a[1], depth - 1))
    if o == "at":
        return "%s[%s]" % (show(a[0], depth - 1), show(a[1], depth - 1))
    if o == "adt":
        return "%s%s{%s}" % (a[0].split("::")[-1], "::" + a[1] if a[1] and a[1] != a[0].split("::")[-1] else "",
                             ", ".join("%s:%s" % (n, show(v, depth - 1)) for n, v in zip(a[2], a[3])))
    if o == "tup":
        return show(a[0], depth)
    if o == "gate":
        return "gate{" + "; ".join("%s if %s" % (show(v, depth - 1), show(g, depth - 2)) for v, g in a[0]) + "}"
    if o == "cat":
        return "[" + ", ".join(
            (show(s[1], depth - 1) if s[0] == "one" else
             ".." + show(s[1], depth - 1) if s[0] == "all" else
             "%s for %s" % (show(s[2], depth - 1), show(s[1], depth - 2))) +
            ("" if s[-1] is ONE else " if " + show(s[-1], depth - 2)) for s in a[0]) + "]"
    return o + "(" + ", ".join(show(y, depth - 1) for y in a) + ")"
