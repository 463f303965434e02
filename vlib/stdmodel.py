"""Models of the std / scrypto operations the analysed code uses."""
import re
from terms import *
import terms as tm
import eng as E
from eng import (some, ok, tup, ref, opt, NONE, UNIT, UNINIT, MAPNEW, VECNEW, DEC, as_bool, as_num, VER0, NUM_TY,
                 UNSIGNED, INT_TY, Ev, State, norm_crate)

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


class Ctx:
    __slots__ = ("e", "fr", "st", "g", "f", "args", "line", "dty")

    def __init__(self, e, fr, st, g, f, args, line, dty):
        self.e, self.fr, self.st, self.g, self.f, self.args, self.line, self.dty = e, fr, st, g, f, args, line, dty

    def d(self, i, ty=None):
        return self.e.deref(self.st, self.args[i], ty)

    def n(self, i, ty=DEC):
        return self.e.num(self.st, self.args[i], ty)

    def ev(self, kind, **d):
        return self.e.ev(kind, self.g, self.fr, self.line, **d)

    def targets(self, i):
        return self.e.reftargets(self.args[i])

    def update(self, i, fn):
        """apply fn(old)->new to the place(s) arg i refers to; returns old values merged"""
        olds = []
        for root, path, g in self.targets(i):
            # follow references stored in the place
            while root is not None:
                v = self.e.rd(self.st, root, path)
                if isinstance(v, T) and v.op == "ref":
                    root, path = v.a
                else:
                    break
            old = self.e.rd(self.st, root, path)
            olds.append((old, g))
            if root is not None:
                self.e.wr(self.st, root, path, fn(old), g)
        return merge_all(olds)

    def place(self, i):
        """final (root, path, guard) targets of a reference argument"""
        out = []
        for root, path, g in self.targets(i):
            while root is not None:
                v = self.e.rd(self.st, root, path)
                if isinstance(v, T) and v.op == "ref":
                    root, path = v.a
                else:
                    break
            out.append((root, path, g))
        return out

    def assert_(self, cond, err=""):
        c = tm.assume(cond, self.st.known)
        if c is not ONE:
            self.e.ev("assert", self.g, self.fr, self.line, cond=c, err=err)
            self.e.learn(self.st, c)

    def call(self, fv, args, g=None, auth=None):
        return self.e.call_value(self.fr, self.st, self.g if g is None else g, fv, args, self.line, auth)


def unknown(cx):
    name = cx.f["fn"]
    args = tuple(cx.e.deep(cx.st, a) if isinstance(a, T) else a for a in cx.args)
    v = mk("call", E.sg(name), args)
    if name.endswith("::blueprint_type_identifier"):
        return v
    cx.e.unmodelled[name] = cx.e.unmodelled.get(name, 0) + 1
    if name.startswith(("std::", "core::", "alloc::")) and cx.e.nomut:
        # a library function without mutable reference or closure arguments: an uninterpreted pure function
        if cx.dty and cx.dty != "bool" and cx.dty not in NUM_TY:
            return v
        return cx.e.coerce(v, cx.dty) if cx.dty else v
    cx.ev("unk", fn=name, args=args)
    # an unmodelled callee may write through &mut arguments
    return v


def is_mut(cx, i):
    return True


# ------------------------------------------------------------------ identity-like
def ident(cx):
    return cx.args[0]


def ident_deref(cx):
    return cx.d(0)


def opt_deref(cx):
    """the option with what its content refers to"""
    v = cx.d(0)
    if isinstance(v, T) and v.op in ("adt", "gate"):
        def one(w):
            if w.op == "adt" and w.a[1] == "Some":
                x = w.a[3][0]
                x = cx.e.deref(cx.st, x) if isinstance(x, T) else x
                return some(x)
            return w
        if v.op == "gate":
            return merge_all([(one(w), g) for w, g in v.a[0]])
        return one(v)
    return v


for n in ("std::option::Option::copied", "std::option::Option::cloned"):
    MODELS[n] = opt_deref
for n in ("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned",
          "std::iter::Iterator::cloned", "std::iter::Iterator::copied"):
    MODELS[n] = ident_deref
for n in ("std::convert::Into::into", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
          "std::hint::must_use",
          "scrypto::prelude::ScryptoBucket::as_fungible", "scrypto::prelude::ScryptoBucket::as_non_fungible",
          "std::option::Option::as_deref", "std::vec::Vec::as_slice", "std::string::String::as_str",
          "scrypto::prelude::ScryptoProof::as_non_fungible", "scrypto::prelude::ScryptoVault::as_fungible",
          "std::string::String::into_bytes", "scrypto::prelude::Hash::to_vec", "std::boxed::Box::new"):
    MODELS[n] = ident


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def _deref(cx):
    """guards over stored entries are references themselves: &mut guard derefs to what the guard points at"""
    v = cx.args[0]
    if isinstance(v, T) and v.op == "ref":
        w = cx.e.rd(cx.st, v.a[0], v.a[1])
        if isinstance(w, T) and (w.op == "ref" or w.op == "gate" and all(x.op == "ref" for x, _ in w.a[0])):
            return w
    return v


@model("std::string::ToString::to_string")
def _tostring(cx):
    v = cx.d(0)
    if isinstance(v, P):
        return mk("tostr", v)
    if v.op == "str" or "str" in str(cx.f.get("a")) or "String" in str(cx.f.get("a")):
        return v
    return mk("tostr", v)


@model("std::convert::From::from")
def _from(cx):
    to = cx.f["a"][0] if cx.f.get("a") else ""
    frm = cx.f["a"][1] if len(cx.f.get("a", [])) > 1 else ""
    v = cx.args[0]
    if to in NUM_TY or to.startswith("common::d_float") or "DFloat16" in to:
        if to in INT_TY and frm in INT_TY:
            return cx.e.int_cast(as_num(v, frm) if isinstance(v, T) else v, to, frm)
        return as_num(cx.d(0), frm if frm in NUM_TY else DEC)
    if "Global<" in to:
        return mk("checked", blueprint(to, cx), cx.d(0))
    if "NonFungible<" in to:
        return mk("nf", cx.d(0))
    if re.match(r"^[\w:]*(Map|Set)<", to) and isinstance(cx.d(0), T) and cx.d(0).op == "cat":
        return _collect(Ctx(cx.e, cx.fr, cx.st, cx.g, {"fn": "x", "n": "collect", "a": []},
                            [mkiter(cx.d(0), "vec", ())], cx.line, to))
    rk = cx.f.get("rk")
    if rk in cx.e.f.bodies:
        return NotImplemented
    if to.endswith("AccessRule") and frm.endswith("AccessRuleNode"):
        return mk("adt", to, "Protected", ("0",), (cx.d(0),))
    return v


@model("AccessRuleNode::or")
def _rule_or(cx):
    """alternatives are appended to a list of alternatives, anything else becomes one of two"""
    a, b = cx.d(0), cx.d(1)
    def one(v):
        if not (isinstance(v, T) and v.op == "adt"):
            return mk("call", "or", (v, b))
        if v.a[1] == "AnyOf":
            return mk("adt", v.a[0], "AnyOf", ("0",), (mkcat(segs(v.a[3][0]) + segs(mkcat((("one", b, ONE),)))),))
        return mk("adt", v.a[0], "AnyOf", ("0",), (mkcat((("one", v, ONE), ("one", b, ONE))),))
    if isinstance(a, T) and a.op == "gate" and any(isinstance(v, T) and v.op == "adt" for v, g in a.a[0]):
        out = None
        for v, g in a.a[0]:
            out = one(v) if out is None else ite(g, one(v), out)
        return out
    return one(a)


@model("std::convert::TryFrom::try_from")
def _tryfrom(cx):
    to = cx.f["a"][0]
    if "Global<" in to:
        # scrypto's From<ComponentAddress> for Global<O> checks the blueprint of the address
        v = mk("checked", blueprint(to, cx), cx.d(0))
        cx.ev("cast", blueprint=blueprint(to, cx), addr=cx.d(0))
        return ok(v)
    frm = cx.f["a"][1]
    if to in INT_TY or to in NUM_TY:
        v = as_num(cx.d(0), frm if frm in NUM_TY else DEC)
        c = v.const()
        if c is not None:
            return ok(v)
        if to in INT_TY:
            t = mk("tryint", to, v)
            lo, hi = (0 if to in UNSIGNED else -2 ** E.BITS[to]), (2 ** E.BITS[to] - 1)
            isint = frm in INT_TY
            g = ONE - lt0(C(hi) - v, isint)
            if not nonneg(v):
                g = g * (ONE - lt0(v - lo, isint))
            return ite(g, ok(v), mk("adt", "std::result::Result", "Err", ("0",), (mk("err"),)))
        return ok(v)
    return mk("call", "TryFrom::try_from", to, cx.d(0))


def blueprint(ty, cx):
    m = re.search(r"Global<(.*)>", ty)
    return norm_crate(m.group(1), cx.fr.b.crate).split("::")[-1].replace("ObjectStub", "") if m else ty


# ------------------------------------------------------------------ numbers
@model("std::ops::Add::add")
def _add(cx):
    return cx.n(0) + cx.n(1)


@model("std::ops::Sub::sub")
def _sub(cx):
    return cx.n(0) - cx.n(1)


@model("std::ops::Mul::mul")
def _mul(cx):
    return cx.n(0) * cx.n(1)


@model("std::ops::Div::div")
def _div(cx):
    b = cx.n(1)
    return cx.n(0) / b


@model("std::ops::Neg::neg")
def _neg(cx):
    return -cx.n(0)


@model("std::ops::AddAssign::add_assign")
def _adda(cx):
    b = cx.n(1)
    cx.update(0, lambda o: as_num(o) + b)
    return UNIT


@model("std::ops::SubAssign::sub_assign")
def _suba(cx):
    b = cx.n(1)
    cx.update(0, lambda o: as_num(o) - b)
    return UNIT


@model("std::ops::MulAssign::mul_assign")
def _mula(cx):
    b = cx.n(1)
    cx.update(0, lambda o: as_num(o) * b)
    return UNIT


@model("std::ops::DivAssign::div_assign")
def _diva(cx):
    b = cx.n(1)
    cx.update(0, lambda o: as_num(o) / b)
    return UNIT


def numeric_args(cx):
    a = cx.f.get("a") or []
    return bool(a) and a[0].lstrip("&") in NUM_TY


def isint(cx):
    a = cx.f.get("a") or []
    return bool(a) and a[0].lstrip("&") in INT_TY


def _cmp(fn):
    def f(cx):
        if numeric_args(cx):
            ty = cx.f["a"][0].lstrip("&")
            return tm.assume(fn(cx.n(0, ty), cx.n(1, ty), isint(cx)), cx.st.known)
        a, b = cx.d(0), cx.d(1)
        if isinstance(a, P) and isinstance(b, P):
            return tm.assume(fn(a, b, False), cx.st.known)
        return as_bool(mk("cmpop", fn.__name__, a, b))
    return f


def c_lt(a, b, i):
    return lt0(a - b, i)


def c_gt(a, b, i):
    return lt0(b - a, i)


def c_le(a, b, i):
    return ONE - lt0(b - a, i)


def c_ge(a, b, i):
    return ONE - lt0(a - b, i)


MODELS["std::cmp::PartialOrd::lt"] = _cmp(c_lt)
MODELS["std::cmp::PartialOrd::gt"] = _cmp(c_gt)
MODELS["std::cmp::PartialOrd::le"] = _cmp(c_le)
MODELS["std::cmp::PartialOrd::ge"] = _cmp(c_ge)


@model("std::cmp::PartialEq::eq")
def _eq(cx):
    return tm.assume(eqval(cx, cx.d(0), cx.d(1)), cx.st.known)


@model("std::cmp::PartialEq::ne")
def _ne(cx):
    return tm.assume(ONE - eqval(cx, cx.d(0), cx.d(1)), cx.st.known)


def eqval(cx, a, b):
    ty = (cx.f.get("a") or [""])[0].lstrip("&")
    if ty in NUM_TY or isinstance(a, P) or isinstance(b, P):
        if ty == "bool":
            a, b = as_bool(a), as_bool(b)
            return a * b + (ONE - a) * (ONE - b)
        a, b = as_num(a, ty or DEC), as_num(b, ty or DEC)
        return eq0(a - b, ty in INT_TY)
    for x, y in ((a, b), (b, a)):
        if isinstance(y, T) and y.op == "adt" and isinstance(x, T):
            ad = cx.e.f.adts.get(y.a[0])
            if ad and ad["enum"]:
                names = [v["n"] for v in ad["variants"]]
                g = cx.e.is_variant(x, y.a[1], names)
                for n, v in zip(y.a[2], y.a[3]):
                    g = g * eqval(Ctx(cx.e, cx.fr, cx.st, cx.g, {"a": []}, [], cx.line, None),
                                  cx.e.deref(cx.st, proj(x, "@%s.%s" % (y.a[1], n))), v)
                return g
    return eqv(a, b)


@model("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def _ordcmp(cx):
    a, b = cx.d(0), cx.d(1)
    if isinstance(a, P) or isinstance(b, P) or numeric_args(cx):
        r = mk("cmp", as_num(a), as_num(b), C(int(isint(cx))))
        return some(r) if cx.f["n"] == "partial_cmp" else r
    return mk("call", "Ord::cmp", a, b)


@model("std::cmp::Ordering::is_lt", "std::cmp::Ordering::is_le", "std::cmp::Ordering::is_gt", "std::cmp::Ordering::is_ge",
       "std::cmp::Ordering::is_eq", "std::cmp::Ordering::is_ne")
def _ordis(cx):
    v = cx.d(0)
    is_ = lambda n: cx.e.is_variant(v, n, ["Less", "Equal", "Greater"])
    n = cx.f["n"]
    return {"is_lt": lambda: is_("Less"), "is_gt": lambda: is_("Greater"), "is_eq": lambda: is_("Equal"),
            "is_le": lambda: ONE - is_("Greater"), "is_ge": lambda: ONE - is_("Less"),
            "is_ne": lambda: ONE - is_("Equal")}[n]()


@model("std::cmp::min", "std::cmp::max")
def _cmpminmax(cx):
    a0 = (cx.f.get("a") or [""])[0]
    if a0 in NUM_TY or numeric_args(cx) or isinstance(cx.d(0), P):
        return (pmin if cx.f["n"] == "min" else pmax)(cx.n(0), cx.n(1))
    return unknown(cx)


@model("CheckedNeg::checked_neg", "scrypto::prelude::CheckedNeg::checked_neg")
def _cneg(cx):
    return some(-cx.n(0))


@model("Decimal::checked_powi")
def _cpowi(cx):
    n = cx.n(1, "i64").const()
    if n is not None and 0 <= n <= 8:
        r = ONE
        for _ in range(int(n)):
            r = r * cx.n(0)
        return some(r)
    return some(A(mk("pow", cx.n(0), cx.n(1, "i64"))))


@model("std::cmp::Ord::min")
def _min(cx):
    return pmin(cx.n(0), cx.n(1))


@model("std::cmp::Ord::max")
def _max(cx):
    return pmax(cx.n(0), cx.n(1))


@model("std::cmp::Ord::clamp")
def _clamp(cx):
    return pmin(pmax(cx.n(0), cx.n(1)), cx.n(2))


@model("Decimal::is_positive", "PreciseDecimal::is_positive", "I192::is_positive")
def _ispos(cx):
    return lt0(-cx.n(0))


@model("Decimal::is_negative", "PreciseDecimal::is_negative")
def _isneg(cx):
    return lt0(cx.n(0))


@model("Decimal::is_zero", "PreciseDecimal::is_zero", "I192::is_zero")
def _iszero(cx):
    return eq0(cx.n(0))


@model("Decimal::zero", "PreciseDecimal::zero")
def _zero(cx):
    return ZERO


@model("Decimal::one")
def _one(cx):
    return ONE


@model("Decimal::checked_abs")
def _cabs(cx):
    return some(pabs(cx.n(0)))


@model("I192::abs", "Decimal::abs")
def _abs(cx):
    return pabs(cx.n(0))


@model("I192::signum")
def _signum(cx):
    x = cx.n(0)
    return ONE - eq0(x) - 2 * lt0(x)


@model("I192::from_digits", "<impl>::from_digits", "I256::from_digits", "scrypto::prelude::convert::<impl>::from_digits")
def _fromdigits(cx):
    v = cx.d(0)
    if v.op == "cat":
        ds = [s[1].const() for s in v.a[0]]
        if all(d is not None for d in ds):
            n = sum(d << (64 * i) for i, d in enumerate(ds))
            if n >= 1 << (64 * len(ds) - 1):
                n -= 1 << (64 * len(ds))
            return C(n)
    return A(mk("call", "from_digits", v))


@model("scrypto::prelude::CheckedAdd::checked_add", "CheckedAdd::checked_add")
def _cadd(cx):
    return some(cx.n(0) + cx.n(1))


@model("CheckedSub::checked_sub", "scrypto::prelude::CheckedSub::checked_sub")
def _csub(cx):
    return some(cx.n(0) - cx.n(1))


@model("CheckedMul::checked_mul", "scrypto::prelude::CheckedMul::checked_mul")
def _cmul(cx):
    return some(cx.n(0) * cx.n(1))


@model("CheckedDiv::checked_div", "scrypto::prelude::CheckedDiv::checked_div")
def _cdiv(cx):
    return some(cx.n(0) / cx.n(1))


@model("<impl>::saturating_sub")
def _satsub(cx):
    ty = cx.dty or "u64"
    return pmax(cx.n(0, ty) - cx.n(1, ty), ZERO)


@model("<impl>::checked_sub")
def _ichecked_sub(cx):
    m = re.search(r"Option<(\w+)>", cx.dty or "")
    ty = m.group(1) if m else "u64"
    v = cx.n(0, ty) - cx.n(1, ty)
    if ty in UNSIGNED:
        return opt(ONE - lt0(v, True), v)
    return some(v)


@model("<impl>::checked_add", "<impl>::checked_mul")
def _ichecked_add(cx):
    m = re.search(r"Option<(\w+)>", cx.dty or "")
    ty = m.group(1) if m else "u64"
    if cx.f["n"] == "checked_mul":
        return some(cx.n(0, ty) * cx.n(1, ty))
    return some(cx.n(0, ty) + cx.n(1, ty))


@model("<impl>::abs")
def _iabs(cx):
    return pabs(cx.n(0))


@model("scrypto::prelude::Pow::pow")
def _pow(cx):
    a, b = cx.n(0), cx.n(1, "u64")
    n = b.const()
    if n is not None and 0 <= n <= 8:
        r = ONE
        for _ in range(n):
            r = r * a
        return r
    return A(mk("pow", a, b))


@model("scrypto::prelude::Instant::compare")
def _icompare(cx):
    a, b = cx.n(0), cx.n(1)
    op = cx.d(2)
    n = op.a[1] if op.op == "adt" else None
    f = {"Gt": c_gt, "Lt": c_lt, "Gte": c_ge, "Lte": c_le, "Eq": lambda x, y, i: eq0(x - y, True)}.get(n)
    if f is None:
        return as_bool(mk("cmpop", op, a, b))
    return tm.assume(f(a, b, True), cx.st.known)


@model("scrypto::prelude::Instant::add_seconds")
def _addsec(cx):
    return some(cx.n(0) + cx.n(1, "i64"))


@model("scrypto::prelude::Instant::new")
def _inew(cx):
    return cx.n(0, "i64")


@model("scrypto::prelude::Clock::current_time_rounded_to_seconds", "scrypto::prelude::Clock::current_time")
def _now(cx):
    return A(mk("now"))


# ------------------------------------------------------------------ options / results
def is_some(cx, v):
    return tm.assume(cx.e.is_some(v), cx.st.known)


def okvariant(cx, v, ty=None):
    """(present condition, payload) of an Option/Result value"""
    res = (ty or "").startswith("std::result")
    if isinstance(v, T) and v.op in ("adt",) and v.a[0].endswith("Result"):
        res = True
    if isinstance(v, T) and v.op == "gate" and any(w.op == "adt" and w.a[0].endswith("Result") for w, _ in v.a[0]):
        res = True
    if res:
        return tm.assume(cx.e.is_variant(v, "Ok", ["Err", "Ok"]), cx.st.known), proj(v, "@Ok.0")
    return is_some(cx, v), proj(v, "@Some.0")


def selfty(cx):
    return cx.f.get("fn", "")


@model("std::option::Option::unwrap", "std::option::Option::expect", "std::result::Result::unwrap",
       "std::result::Result::expect")
def _unwrap(cx):
    v = cx.d(0)
    g, p = okvariant(cx, v, "std::result" if "result::Result" in cx.f["fn"] else None)
    err = ""
    if len(cx.args) > 1:
        s = cx.d(1)
        err = s.a[0] if s.op == "str" else ""
    if g is not ONE:
        cx.assert_(g, err)
    return p


@model("std::option::Option::unwrap_or", "std::result::Result::unwrap_or")
def _unwrap_or(cx):
    g, p = okvariant(cx, cx.d(0))
    return ite(g, deref_if(cx, p), cx.args[1])


def deref_if(cx, p):
    return p


@model("std::option::Option::unwrap_or_default", "std::result::Result::unwrap_or_default")
def _unwrap_or_default(cx):
    g, p = okvariant(cx, cx.d(0))
    ty = cx.dty or ""
    return ite(g, cx.e.deref(cx.st, p), default_of(cx, ty))


def default_of(cx, ty):
    if ty in NUM_TY or ty == "bool":
        return ZERO
    if ty.startswith("std::vec::Vec"):
        return VECNEW
    if "HashMap<" in ty or "HashSet<" in ty or "IndexMap<" in ty or "IndexSet<" in ty:
        return MAPNEW
    if ty.startswith("std::option::Option"):
        return NONE
    # a local Default implementation
    t = norm_crate(ty, cx.fr.b.crate)
    for b in cx.e.f.bodies.values():
        if b.name == "default" and b.tr and "Default" in b.tr and b.impl and (b.impl == t or (
                b.impl.split("::")[0], b.impl.split("::")[-1]) == (t.split("::")[0], t.split("::")[-1])):
            return cx.e.call_body(b, [], cx.st, cx.g, cx.fr.auth, cx.fr.stack + (cx.fr.b.k,))
    if ty.startswith("std::string::String"):
        return mk("str", "")
    return mk("default", ty)


@model("std::string::String::new", "std::string::String::with_capacity")
def _string_new(cx):
    return mk("str", "")


@model("std::default::Default::default")
def _default(cx):
    rk = cx.f.get("rk")
    if rk in cx.e.f.bodies:
        return NotImplemented
    ty = cx.dty or (cx.f["a"][0] if cx.f.get("a") else "")
    return default_of(cx, ty)


@model("std::option::Option::unwrap_or_else", "std::result::Result::unwrap_or_else")
def _unwrap_or_else(cx):
    v = cx.d(0)
    res = "result::Result" in cx.f["fn"]
    g, p = okvariant(cx, v, "std::result" if res else None)
    return branch(cx, g, lambda s, gg: p, lambda s, gg: cx.e.call_value(
        cx.fr, s, gg, cx.args[1], [proj(v, "@Err.0")] if res else [], cx.line))


def branch(cx, g, fa, fb):
    """evaluate fa under g and fb under not g, merging states"""
    g = tm.assume(g, cx.st.known)
    if g is ONE:
        return fa(cx.st, cx.g)
    if not g.d:
        return fb(cx.st, cx.g)
    s1, s2 = cx.st.copy(), cx.st.copy()
    cx.e.learn(s1, g)
    cx.e.learn(s2, ONE - g)
    a = fa(s1, pmul(cx.g, g))
    b = fb(s2, pmul(cx.g, ONE - g))
    if isinstance(a, T) and a.op == "never":
        l = [(s2, ONE)]
    elif isinstance(b, T) and b.op == "never":
        l = [(s1, ONE)]
    else:
        l = [(s1, g), (s2, ONE - g)]
    m = cx.e.merge_states(cx.fr, l)
    cx.st.store, cx.st.known, cx.st.ver = m.store, m.known, m.ver
    return ite(g, a, b)


@model("std::option::Option::map", "std::result::Result::map")
def _omap(cx):
    v = cx.d(0)
    g, p = okvariant(cx, v, "std::result" if "result::Result" in cx.f["fn"] else None)
    mkv = ok if "result::Result" in cx.f["fn"] else some
    none = v if "result::Result" in cx.f["fn"] else NONE
    return branch(cx, g, lambda s, gg: mkv(cx.e.call_value(cx.fr, s, gg, cx.args[1], [p], cx.line)),
                  lambda s, gg: none)


@model("std::option::Option::map_or")
def _omapor(cx):
    g, p = okvariant(cx, cx.d(0))
    return branch(cx, g, lambda s, gg: cx.e.call_value(cx.fr, s, gg, cx.args[2], [p], cx.line),
                  lambda s, gg: cx.args[1])


@model("std::option::Option::map_or_else")
def _omaporelse(cx):
    g, p = okvariant(cx, cx.d(0))
    return branch(cx, g, lambda s, gg: cx.e.call_value(cx.fr, s, gg, cx.args[2], [p], cx.line),
                  lambda s, gg: cx.e.call_value(cx.fr, s, gg, cx.args[1], [], cx.line))


@model("std::option::Option::and_then")
def _andthen(cx):
    g, p = okvariant(cx, cx.d(0))
    return branch(cx, g, lambda s, gg: cx.e.call_value(cx.fr, s, gg, cx.args[1], [p], cx.line),
                  lambda s, gg: NONE)


@model("std::option::Option::filter")
def _ofilter(cx):
    v = cx.d(0)
    g, p = okvariant(cx, v)
    c = branch(cx, g, lambda s, gg: as_bool(cx.e.call_value(cx.fr, s, gg, cx.args[1], [p], cx.line)),
               lambda s, gg: ZERO)
    return opt(pmul(g, c), p)


@model("std::option::Option::is_some_and", "std::option::Option::is_none_or", "std::result::Result::is_ok_and")
def _issomeand(cx):
    g, p = okvariant(cx, cx.d(0))
    other = ONE if cx.f["n"] == "is_none_or" else ZERO
    return branch(cx, g, lambda s, gg: as_bool(cx.e.call_value(cx.fr, s, gg, cx.args[1], [p], cx.line)),
                  lambda s, gg: other)


@model("std::option::Option::or", "std::option::Option::or_else")
def _oor(cx):
    v = cx.d(0)
    g, p = okvariant(cx, v)
    if cx.f["n"] == "or":
        return ite(g, v, cx.d(1))
    return branch(cx, g, lambda s, gg: v, lambda s, gg: cx.e.call_value(cx.fr, s, gg, cx.args[1], [], cx.line))


@model("std::option::Option::ok_or", "std::option::Option::ok_or_else")
def _okor(cx):
    g, p = okvariant(cx, cx.d(0))
    return ite(g, ok(p), mk("adt", "std::result::Result", "Err", ("0",), (mk("err"),)))


@model("std::result::Result::ok")
def _rok(cx):
    g, p = okvariant(cx, cx.d(0), "std::result")
    return opt(g, p)


@model("std::result::Result::is_ok")
def _isok(cx):
    return okvariant(cx, cx.d(0), "std::result")[0]


@model("std::result::Result::is_err")
def _iserr(cx):
    return ONE - okvariant(cx, cx.d(0), "std::result")[0]


@model("std::option::Option::is_some")
def _issome(cx):
    return is_some(cx, cx.d(0))


@model("std::option::Option::is_none")
def _isnone(cx):
    return ONE - is_some(cx, cx.d(0))


@model("std::option::Option::as_ref", "std::option::Option::as_mut")
def _asref(cx):
    out = []
    for root, path, g in cx.place(0):
        v = cx.e.rd(cx.st, root, path)
        s = is_some(cx, v)
        if root is None:
            out.append((opt(s, proj(v, "@Some.0")), g))
        else:
            out.append((opt(s, ref(root, path + ("@Some.0",))), g))
    return merge_all(out)


@model("std::option::Option::take")
def _otake(cx):
    return cx.update(0, lambda o: NONE)


@model("std::mem::take")
def _mtake(cx):
    return cx.update(0, lambda o: default_of(cx, cx.dty or ""))


@model("std::mem::replace")
def _mreplace(cx):
    return cx.update(0, lambda o: cx.args[1])


# ------------------------------------------------------------------ box / vec! plumbing
@model("std::boxed::Box::new_uninit")
def _newuninit(cx):
    cx.e.fresh += 1
    root = ("B", cx.e.fresh)
    cx.st.store[root] = mk("box", UNINIT)
    return mk("boxref", mk("str", "b%d" % cx.e.fresh)) if False else ref(root)


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::<impl>::into_vec", "<impl>::into_vec")
def _intovec(cx):
    v = cx.d(0)
    if isinstance(v, T) and v.op == "box":
        v = v.a[0]
    return v


@model("std::slice::<impl>::to_vec", "<impl>::to_vec")
def _tovec(cx):
    return cx.d(0)


# ------------------------------------------------------------------ maps and sets
SETS = set()        # symbolic values known to be sets by their type


def mapty(cx, i=0):
    v = cx.d(i)
    if isinstance(v, T):
        tm.MAPS.add(v)
        if "Set::" in E.sg(cx.f["fn"]):
            SETS.add(v)
    return v


HM = ("std::collections::HashMap::", "scrypto::prelude::indexmap::IndexMap::", "std::collections::BTreeMap::",
      "scrypto::component::KeyValueStore::", "std::collections::HashSet::", "scrypto::prelude::indexmap::IndexSet::",
      "std::collections::BTreeSet::")


def mapmodel(*names):
    def d(f):
        for n in names:
            for h in HM:
                MODELS[h + n] = f
        return f
    return d


@mapmodel("new", "with_capacity", "default", "new_with_registered_type")
def _mnew(cx):
    return MAPNEW


def key_of(cx, i):
    return cx.e.deep(cx.st, cx.args[i]) if isinstance(cx.args[i], T) else cx.args[i]


@mapmodel("contains_key", "contains")
def _mcontains(cx):
    return tm.assume(map_has(mapty(cx), key_of(cx, 1)), cx.st.known)


@mapmodel("get", "get_mut")
def _mget(cx):
    k = key_of(cx, 1)
    out = []
    for root, path, g in cx.place(0):
        m = cx.e.rd(cx.st, root, path)
        tm.MAPS.add(m)
        h = tm.assume(map_has(m, k), cx.st.known)
        if root is None:
            out.append((opt(h, map_at(m, k)), g))
        else:
            out.append((opt(h, ref(root, path + (("at", k),))), g))
    return merge_all(out)


@mapmodel("insert", "replace")
def _minsert(cx):
    k = key_of(cx, 1)
    isset = "Set::" in E.sg(cx.f["fn"])
    v = UNIT if isset else cx.args[2]
    old = []

    def up(m):
        h, o = map_has(m, k), map_at(m, k)
        old.append((h, o))
        return mapw(m, k, v, ONE)
    cx.update(0, up)
    h, o = old[0] if len(old) == 1 else (A(mk("b", mk("old"))), mk("old"))
    if isset:
        return ONE - h
    if "KeyValueStore" in cx.f["fn"]:
        return UNIT
    return opt(h, o)


@mapmodel("remove", "shift_remove", "swap_remove", "take", "shift_take", "swap_take")
def _mremove(cx):
    k = key_of(cx, 1)
    old = []

    def up(m):
        h, o = map_has(m, k), map_at(m, k)
        old.append((h, o))
        return mapw(m, k, mk("never"), ZERO)
    cx.update(0, up)
    h, o = old[0] if len(old) == 1 else (A(mk("b", mk("old"))), mk("old"))
    if "Set::" in E.sg(cx.f["fn"]):
        return opt(h, k) if cx.f["n"].endswith("take") else h
    return opt(h, o)


@mapmodel("len")
def _mlen(cx):
    return map_len(mapty(cx))


def map_len(m):
    if m.op == "mapnew":
        return ZERO
    if m.op == "mapw":
        return map_len(m.a[0]) + m.a[3] - map_has(m.a[0], m.a[1])
    if m.op == "gate":
        return merge_all([(map_len(v), g) for v, g in m.a[0]])
    t = mk("len", m)
    tm.NONNEG.add(t)
    return A(t)


tm.REBUILD["len"] = lambda m: map_len(m) if m.op in ("mapw", "mapnew") else (vec_len(m) if m.op == "cat" else A(mk("len", m)))


@mapmodel("is_empty")
def _mempty(cx):
    return eq0(map_len(mapty(cx)), True)


@mapmodel("entry")
def _mentry(cx):
    k = key_of(cx, 1)
    out = []
    for root, path, g in cx.place(0):
        m = cx.e.rd(cx.st, root, path)
        out.append((mk("entry", root, path, k, tm.assume(map_has(m, k), cx.st.known)), g))
    return merge_all(out)


ENTRYOPS = ("std::collections::hash_map::%sEntry::", "scrypto::prelude::indexmap::map::%sEntry::", "%sEntry::",
            "std::collections::btree_map::%sEntry::", "std::collections::hash_set::%sEntry::")


def entry_model(kind, *names):
    def d(f):
        for h in ENTRYOPS:
            for n in names:
                MODELS[h % kind + n] = f
        return f
    return d


def entry_place(cx):
    en = cx.args[0]
    if isinstance(en, T) and en.op == "ref":
        en = cx.d(0)
    return en.a[:3] if isinstance(en, T) and en.op == "entry" else None


@entry_model("Occupied", "get", "get_mut", "into_mut")
def _occget(cx):
    p = entry_place(cx)
    return unknown(cx) if p is None else ref(p[0], p[1] + (("at", p[2]),))


@entry_model("Occupied", "insert")
def _occinsert(cx):
    p = entry_place(cx)
    if p is None:
        return unknown(cx)
    m = cx.e.rd(cx.st, p[0], p[1])
    cx.e.wr(cx.st, p[0], p[1], mapw(m, p[2], cx.args[1], ONE), ONE)
    return map_at(m, p[2])


@entry_model("Occupied", "remove", "remove_entry", "shift_remove", "swap_remove")
def _occremove(cx):
    p = entry_place(cx)
    if p is None:
        return unknown(cx)
    m = cx.e.rd(cx.st, p[0], p[1])
    cx.e.wr(cx.st, p[0], p[1], mapw(m, p[2], mk("never"), ZERO), ONE)
    return tup(p[2], map_at(m, p[2])) if cx.f["n"] == "remove_entry" else map_at(m, p[2])


@entry_model("Vacant", "insert")
def _vacinsert(cx):
    p = entry_place(cx)
    if p is None:
        return unknown(cx)
    m = cx.e.rd(cx.st, p[0], p[1])
    cx.e.wr(cx.st, p[0], p[1], mapw(m, p[2], cx.args[1], ONE), ONE)
    return ref(p[0], p[1] + (("at", p[2]),))


@entry_model("Occupied", "key")
def _occkey(cx):
    p = entry_place(cx)
    return unknown(cx) if p is None else p[2]


MODELS["VacantEntry::key"] = MODELS["VacantEntry::into_key"] = MODELS["Entry::key"] = _occkey


@model("std::collections::hash_map::Entry::or_insert", "Entry::or_insert", "std::collections::hash_map::Entry::or_default",
       "std::collections::hash_map::Entry::or_insert_with")
def _orinsert(cx):
    def one(en, g):
        root, path, k = en.a[:3]
        m = cx.e.rd(cx.st, root, path)
        h = tm.assume(map_has(m, k), cx.st.known)
        n = cx.f["n"]
        if n == "or_insert":
            d = cx.args[1]
        elif n == "or_insert_with":
            d = cx.e.call_value(cx.fr, cx.st, cx.g, cx.args[1], [], cx.line)
        else:
            d = default_of(cx, re.sub(r"^&mut ", "", cx.dty or ""))
        if h is not ONE:
            cx.e.wr(cx.st, root, path, mapw(m, k, ite(h, map_at(m, k), d), ONE), g)
        return ref(root, path + (("at", k),))
    en = cx.args[0]
    if en.op == "gate":
        return merge_all([(one(w, g), g) for w, g in en.a[0]])
    if en.op != "entry":
        return unknown(cx)
    return one(en, ONE)


@model("std::collections::hash_map::Entry::and_modify")
def _andmodify(cx):
    en = cx.args[0]
    if en.op != "entry":
        return unknown(cx)
    root, path, k = en.a[:3]
    m = cx.e.rd(cx.st, root, path)
    h = tm.assume(map_has(m, k), cx.st.known)
    branch(cx, h, lambda s, gg: cx.e.call_value(cx.fr, s, gg, cx.args[1], [ref(root, path + (("at", k),))], cx.line),
           lambda s, gg: UNIT)
    return en


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _index(cx):
    out = []
    a0 = cx.f["a"][0] if cx.f.get("a") else ""
    for root, path, g in cx.place(0):
        m = cx.e.rd(cx.st, root, path)
        if isinstance(m, T) and "Map<" in a0:
            k = key_of(cx, 1)
            h = tm.assume(map_has(m, k), cx.st.known)
            cx.assert_(h, "index")
            out.append((ref(root, path + (("at", k),)) if root is not None else map_at(m, k), g))
        else:
            i = cx.d(1)
            out.append((ref(root, path + (("at", i),)) if root is not None else cx.e.pstep(m, ("at", i)), g))
    return merge_all(out)


# ------------------------------------------------------------------ vectors
def vec_len(v):
    if v.op == "cat":
        r = ZERO
        for s in v.a[0]:
            if s[0] == "one":
                r = r + s[-1]
            elif s[0] == "all":
                r = r + s[-1] * vec_len(s[1])
            else:
                r = r + mksum(s[1], s[-1])
        return r
    if v.op == "gate":
        return merge_all([(vec_len(w), g) for w, g in v.a[0]])
    t = mk("len", v)
    tm.NONNEG.add(t)
    return A(t)


@model("std::vec::Vec::new", "std::vec::Vec::with_capacity")
def _vnew(cx):
    return VECNEW


@model("std::vec::Vec::len", "core::slice::<impl>::len", "std::slice::<impl>::len")
def _vlen(cx):
    v = cx.d(0)
    return vec_len(v) if isinstance(v, T) else A(mk("len", v))


@model("std::vec::Vec::is_empty", "core::slice::<impl>::is_empty")
def _vempty(cx):
    return eq0(vec_len(cx.d(0)), True)


@model("std::vec::Vec::push")
def _vpush(cx):
    x = cx.args[1]
    if isinstance(x, T):
        x = strip_local(cx, x)
    cx.update(0, lambda o: mkcat(segs(o) + (("one", x, ONE),)))
    return UNIT


def strip_local(cx, x):
    return x


@model("std::vec::Vec::append")
def _vappend(cx):
    other = cx.d(1)
    cx.update(0, lambda o: mkcat(segs(o) + segs(other)))
    cx.update(1, lambda o: VECNEW)
    return UNIT


@model("std::vec::Vec::extend_from_slice")
def _vextslice(cx):
    new = segs(cx.e.deep(cx.st, cx.d(1)))
    cx.update(0, lambda o: mkcat(segs(o) + new))
    return UNIT


@model("std::vec::Vec::clear")
def _vclear(cx):
    cx.update(0, lambda o: VECNEW)
    return UNIT


@model("std::vec::Vec::insert")
def _vinsert(cx):
    i = cx.n(1, "usize").const()
    x = cx.args[2]

    def up(o):
        s = segs(o)
        if i == 0:
            return mkcat((("one", x, ONE),) + s)
        if i is not None and i <= len(s) and all(y[0] == "one" and y[-1] is ONE for y in s[:i]):
            return mkcat(s[:i] + (("one", x, ONE),) + s[i:])
        return mk("inserted", o, cx.n(1, "usize"), x if isinstance(x, T) else mk("num", x))
    cx.update(0, up)
    return UNIT


@model("std::iter::once")
def _once(cx):
    return mkiter(mkcat((("one", cx.args[0], ONE),)), "vec", ())


@model("std::iter::empty")
def _iempty(cx):
    return mkiter(VECNEW, "vec", ())


@model("std::vec::Vec::pop")
def _vpop(cx):
    v = cx.d(0)
    if v.op == "cat" and v.a[0] and v.a[0][-1][0] == "one" and v.a[0][-1][-1] is ONE:
        cx.update(0, lambda o: mkcat(o.a[0][:-1]))
        return some(v.a[0][-1][1])
    cx.update(0, lambda o: mk("popped", o))
    return opt(ONE - eq0(vec_len(v), True), E.vec_at(v, vec_len(v) - ONE))


@model("std::vec::Vec::remove", "std::vec::Vec::swap_remove")
def _vremove(cx):
    v = cx.d(0)
    i = cx.n(1, "usize")
    if v.op == "cat" and i.const() is not None and i.const() < len(v.a[0]) and all(
            s[0] == "one" and s[-1] is ONE for s in v.a[0]):
        n = i.const()
        cx.update(0, lambda o: mkcat(o.a[0][:n] + o.a[0][n + 1:]))
        return v.a[0][n][1]
    cx.update(0, lambda o: mk("removed", o, i))
    return E.vec_at(v, i)


@model("core::slice::<impl>::contains")
def _vcontains(cx):
    v = cx.d(0)
    x = cx.d(1)
    if v.op == "cat":
        r = ZERO
        for s in v.a[0]:
            if s[0] == "one":
                c = pmul(s[-1], eqval(cx, cx.e.deref(cx.st, s[1]), x))
            elif s[0] == "comp":
                c = mkany(s[1], pmul(s[-1], eqval(cx, cx.e.deref(cx.st, s[2]), x)))
            else:
                c = pmul(s[-1], A(mk("has", s[1], tm.r_elem(x))))
            r = r + c - pmul(r, c)
        return tm.assume(r, cx.st.known)
    return A(mk("has", v, tm.r_elem(x)))


@model("core::slice::<impl>::get_mut", "core::slice::<impl>::get", "std::vec::Vec::get")
def _vget(cx):
    i = cx.n(1, "usize")
    out = []
    for root, path, g in cx.place(0):
        v = cx.e.rd(cx.st, root, path)
        h = lt0(i - vec_len(v), True)
        out.append((opt(h, ref(root, path + (("at", i),)) if root is not None else E.vec_at(v, i)), g))
    return merge_all(out)


@model("core::slice::<impl>::first", "core::slice::<impl>::last")
def _vfirst(cx):
    v = cx.d(0)
    if v.op == "cat" and v.a[0] and all(s[0] == "one" and s[-1] is ONE for s in v.a[0]):
        return some(v.a[0][0 if cx.f["n"] == "first" else -1][1])
    return opt(ONE - eq0(vec_len(v), True), E.vec_at(v, ZERO if cx.f["n"] == "first" else vec_len(v) - ONE))


@model("std::option::Option::iter", "std::option::Option::into_iter")
def _optiter(cx):
    return opt_iter(cx, cx.d(0))


@model("std::option::Option::zip")
def _optzip(cx):
    a, b = cx.d(0), cx.d(1)
    return opt(pmul(is_some(cx, a), is_some(cx, b)), tup(proj(a, "@Some.0"), proj(b, "@Some.0")))


@model("std::option::Option::xor")
def _optxor(cx):
    a, b = cx.d(0), cx.d(1)
    x, y = is_some(cx, a), is_some(cx, b)
    return ite(pmul(x, ONE - y), a, ite(pmul(y, ONE - x), b, NONE))


@model("std::option::Option::and")
def _optand(cx):
    return ite(is_some(cx, cx.d(0)), cx.d(1), NONE)


@model("std::option::Option::insert", "std::option::Option::replace")
def _optinsert(cx):
    old = cx.update(0, lambda o: some(cx.args[1]))
    if cx.f["n"] == "replace":
        return old
    return merge_all([(ref(r, p + ("@Some.0",)), g) for r, p, g in cx.place(0)])


@model("std::option::Option::get_or_insert_with", "std::option::Option::get_or_insert")
def _optgoi(cx):
    v = cx.d(0)
    g = is_some(cx, v)
    x = branch(cx, g, lambda s, gg: proj(v, "@Some.0"), lambda s, gg: cx.args[1] if cx.f["n"] == "get_or_insert" else
               cx.e.call_value(cx.fr, s, gg, cx.args[1], [], cx.line))
    cx.update(0, lambda o: some(x))
    return merge_all([(ref(r, p + ("@Some.0",)), gg) for r, p, gg in cx.place(0)])


@model("std::option::Option::is_none_or")
def _nothing(cx):
    return _issomeand(cx)


@model("core::bool::<impl>::then", "core::bool::<impl bool>::then", "<impl bool>::then")
def _then(cx):
    g = as_bool(cx.d(0))
    return branch(cx, g, lambda s, gg: some(cx.e.call_value(cx.fr, s, gg, cx.args[1], [], cx.line)), lambda s, gg: NONE)


@model("core::bool::<impl>::then_some", "core::bool::<impl bool>::then_some", "<impl bool>::then_some")
def _thensome(cx):
    return opt(as_bool(cx.d(0)), cx.args[1])


@model("std::ops::RangeInclusive::new")
def _rinew(cx):
    return mk("adt", "std::ops::RangeInclusive", "RangeInclusive", ("start", "end", "exhausted"),
              (cx.args[0], cx.args[1], ZERO))


@model("std::ops::Range::contains", "std::ops::RangeInclusive::contains", "std::ops::RangeBounds::contains",
       "std::ops::RangeFrom::contains", "std::ops::RangeTo::contains", "std::ops::RangeToInclusive::contains")
def _rcontains(cx):
    v = cx.d(0)
    ty = "Decimal"
    x = cx.d(1)
    a0 = (cx.f.get("a") or [""])[0]
    integer = bool(re.match(r"^[ui](8|16|32|64|128|size)$", a0))
    x = lift(x)
    name = v.a[0].split("::")[-1] if v.op == "adt" else E.sg(cx.f["fn"]).split("::")[-2]
    if name not in ("Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive"):
        return unknown(cx)
    r = ONE
    if name in ("Range", "RangeInclusive", "RangeFrom"):
        r = ONE - lt0(x - lift(proj(v, "start")), integer)
    if name in ("Range", "RangeTo"):
        r = pmul(r, lt0(x - lift(proj(v, "end")), integer))
    elif name != "RangeFrom":
        r = pmul(r, ONE - lt0(lift(proj(v, "end")) - x, integer))
    return tm.assume(r, cx.st.known)


@model("std::ops::Try::branch")
def _trybranch(cx):
    v = cx.d(0)
    res = "Result<" in (cx.f.get("a") or [""])[0][:20] or None
    g, p = okvariant(cx, v, "std::result" if res else None)
    left = ite(g, mk("never"), v) if not isinstance(v, T) or v.op != "gate" else tm.gate(
        [(w, gg) for w, gg in v.a[0] if not (w.op == "adt" and w.a[1] in ("Some", "Ok"))])
    if not res:
        left = NONE
    cf = lambda n, x: mk("adt", "std::ops::ControlFlow", n, ("0",), (x,))
    return ite(g, cf("Continue", p), cf("Break", left))


@model("std::ops::FromResidual::from_residual")
def _fromresidual(cx):
    v = cx.d(0)
    return NONE if (cx.dty or "").startswith("std::option::Option") else v


@model("std::ops::Try::from_output")
def _fromoutput(cx):
    return some(cx.args[0]) if (cx.dty or "").startswith("std::option::Option") else ok(cx.args[0])


@model("std::mem::swap")
def _mswap(cx):
    a, b = cx.place(0), cx.place(1)
    if len(a) != 1 or len(b) != 1 or a[0][0] is None or b[0][0] is None:
        return unknown(cx)
    x, y = cx.e.rd(cx.st, a[0][0], a[0][1]), cx.e.rd(cx.st, b[0][0], b[0][1])
    cx.e.wr(cx.st, a[0][0], a[0][1], y, ONE)
    cx.e.wr(cx.st, b[0][0], b[0][1], x, ONE)
    return UNIT


@model("std::array::<impl>::map", "std::array::<impl [T; N]>::map", "<impl [T; N]>::map")
def _arrmap(cx):
    lp = consume(cx, mkiter(cx.d(0), "vec", ()), lambda s, x, g: cx.e.call_value(cx.fr, s, g, cx.args[1], [x], cx.line))
    if lp.lit is None:
        return mkcat((("comp", lp.coll, lp.result, lp.eguard),))
    return mkcat(tuple(("one", x, g) for x, g in lp.lit))


@model("std::iter::Iterator::partition")
def _partition(cx):
    box = []

    def f(s, x, g):
        e = cx.e
        e.fresh += 1
        root = ("E", e.fresh)
        s.store[root] = x
        c = as_bool(e.call_value(cx.fr, s, g, cx.args[1], [ref(root)], cx.line))
        s.store.pop(root, None)
        return tup(cx.e.deep(s, x) if isinstance(x, T) else x, c)
    lp = consume(cx, to_iter(cx), f)
    m = re.match(r"^\((.*)\)$", cx.dty or "")
    return tup(*(built(cx, lp, (m.group(1) if m else ""), (
        lambda r, k=k: (r.a[0][0], r.a[0][1] if k else ONE - r.a[0][1]))) for k in (1, 0)))


@model("std::iter::Iterator::unzip")
def _unzip(cx):
    lp = consume(cx, to_iter(cx), lambda s, x, g: cx.e.deep(s, x) if isinstance(x, T) else x)
    a = (cx.f.get("a") or [])
    ty = a[-2:] if len(a) >= 2 else ["", ""]
    return tup(*(built(cx, lp, ty[k], lambda r, k=k: (proj(r, str(k)), ONE)) for k in (0, 1)))


def built(cx, lp, ty, pick):
    """the container of type ty holding what pick(result) -> (value, condition) selects of a loop's results"""
    kind = "set" if re.match(r"^[\w:]*Set<", ty) else "map" if re.match(r"^[\w:]*Map<", ty) else "vec"
    kv = lambda x: (x, UNIT) if kind == "set" else (proj(x, "0"), proj(x, "1"))
    if lp.lit is not None:
        l = [pick(r) + (g,) for r, g in lp.lit]
        if kind == "vec":
            return mkcat(tuple(("one", x, pmul(c, g)) for x, c, g in l))
        m = MAPNEW
        for x, c, g in l:
            k, v = kv(x)
            g = pmul(c, g)
            m = mapw(m, k, ite(g, v, map_at(m, k)), ite(g, ONE, map_has(m, k)))
        return m
    x, c = pick(lp.result)
    g = pmul(lp.eguard, c)
    if kind == "vec":
        return mkcat((("comp", lp.coll, x, g),))
    r = mk("mapcomp", lp.coll, kv(x)[0], kv(x)[1], g)
    tm.MAPS.add(r)
    return r


@model("std::iter::Iterator::reduce")
def _reduce(cx):
    e = cx.e
    it = to_iter(cx)
    src = sources(Expander(e, cx.fr, cx.line), cx.st, it, cx.g)
    if src[0] != "lit":
        # the first element and the rest are not told apart: known for sums only
        lp = consume(cx, it, lambda s, x, g: e.call_value(
            cx.fr, s, g, cx.args[1], [A(mk("acc", mk("reduce", src[1]))), x], cx.line))
        t = mk("acc", mk("reduce", src[1]))
        if isinstance(lp.result, P) and isinstance(lp.x, (P, T)) and lp.result - A(t) is lift(e.deref(cx.st, lp.x) if isinstance(lp.x, T) else lp.x):
            return opt(mkany(lp.coll, lp.eguard) if lp.eguard is not ONE else ONE - eq0(coll_len(lp.coll), True),
                       mksum(lp.coll, pmul(lp.eguard, lp.result - A(t))))
        return unknown(cx)
    e.fresh += 1
    root = ("E", e.fresh)
    cx.st.store[root] = NONE

    def f(s, x, g):
        acc = s.store[root]
        c2 = Ctx(e, cx.fr, s, g, cx.f, cx.args, cx.line, None)
        v = branch(c2, is_some(c2, acc), lambda s2, gg: some(e.call_value(
            cx.fr, s2, gg, cx.args[1], [proj(acc, "@Some.0"), x], cx.line)), lambda s2, gg: some(x))
        s.store[root] = v
        return v
    consume(cx, it, f)
    return cx.st.store.pop(root)


def less(cx, a, b):
    """a < b: ONE, ZERO, or None where it is not decided"""
    if isinstance(a, P) or isinstance(b, P):
        for whole in (False, True):
            v = lt0(as_num(a) - as_num(b), whole)
            if v is ONE or v is ZERO:
                return v
        return None
    if a.op == "adt" and b.op == "adt" and a.a[0].split("::")[-1] == "Reverse":
        return less(cx, b.a[3][0], a.a[3][0])
    if a.op == "tup" and b.op == "tup" and len(a.a[0]) == len(b.a[0]):
        for x, y in zip(a.a[0], b.a[0]):
            v = less(cx, x, y)
            if v is not ZERO:
                return v
            v = less(cx, y, x)
            if v is not ZERO:
                return None if v is None else ZERO
        return ZERO
    return None


def in_order(cx, items, n):
    """the items (all present) in sorted order, or None"""
    if n == "reverse":
        return items[::-1]
    call = lambda *a: cx.e.call_value(cx.fr, cx.st, cx.g, cx.args[1], list(a), cx.line)
    if "by_key" in n or "cached_key" in n:
        ks = [call(x) for x in items]
    elif not n.endswith("_by"):
        ks = items
    else:
        ks = None

    def lt(i, k):
        if ks is not None:
            return less(cx, ks[i], ks[k])
        v = cx.e.is_variant(call(items[i], items[k]), "Less", ["Less", "Equal", "Greater"])
        return v if v is ONE or v is ZERO else None
    out = []
    for i in range(len(items)):
        at_ = len(out)
        for pos in range(len(out) - 1, -1, -1):
            v = lt(i, out[pos])
            if v is None:
                return None
            if v is ONE:
                at_ = pos
        out.insert(at_, i)
    return [items[i] for i in out]


@model("std::slice::<impl>::sort_by_key", "<impl>::sort_by_key", "<impl>::sort_by", "<impl>::sort", "std::slice::<impl>::sort_by",
       "core::slice::<impl>::sort_unstable_by_key", "core::slice::<impl>::reverse", "std::slice::<impl>::reverse", "<impl>::reverse",
       "core::slice::<impl>::sort_unstable_by", "core::slice::<impl>::sort_unstable", "std::slice::<impl>::sort_by_cached_key",
       "<impl>::sort_by_cached_key", "<impl>::sort_unstable", "<impl>::sort_unstable_by", "<impl>::sort_unstable_by_key",
       "std::slice::<impl>::sort")
def _vsort(cx):
    n = cx.f["n"]
    l = literal(cx.d(0))
    if l is not None and len(l) <= 4 and all(g is ONE for x, g in l):
        o = in_order(cx, [x for x, g in l], n)
        if o is not None:
            cx.update(0, lambda v: tm.mkcat(tuple(("one", x, ONE) for x in o)))
            return UNIT
    cx.update(0, lambda o: mk("sorted", o, n))
    return UNIT


@model("std::vec::Vec::retain")
def _vretain(cx):
    v = cx.d(0)
    it = mkiter(v, "vec", ())
    seg = []

    def body(s, elem, g):
        c = as_bool(cx.e.call_value(cx.fr, s, g, cx.args[1], [elem], cx.line))
        seg.append((elem, c))
        return c
    lp = consume(cx, it, body)
    if lp.lit is not None:
        assert len(seg) == len(lp.lit)
        kept = tuple(("one", el, pmul(g, c)) for (el, c), (_, g) in zip(seg, lp.lit))
        cx.update(0, lambda o: tm.mkcat(tuple(k for k in kept if k[2].d)))
        return UNIT
    coll, elem, cond = lp.coll, seg[-1][0], seg[-1][1]
    cx.update(0, lambda o: mkcat((("comp", coll, elem, pmul(lp.eguard, cond)),)))
    return UNIT


# ------------------------------------------------------------------ iterators
def mkiter(src, mode, stages):
    return mk("iter", src, mode, tuple(stages))


def to_iter(cx, i=0):
    """argument i as an iterator value"""
    a = cx.args[i]
    v = cx.e.deref(cx.st, a)
    if isinstance(v, T) and v.op == "iter":
        return v
    if isinstance(v, P):
        return mkiter(mk("num", v), "vec", ())
    ty = (cx.f.get("a") or [""])[0] if i == 0 else ""
    mode = "vec"
    if is_mapish(v) or "Map<" in ty or "Set<" in ty:
        mode = "keys" if ("Set<" in ty or is_setish(v)) else "kv"
    if "Set<" in ty[:60] and isinstance(v, T) and re.match(r"^(&('\S+ )?)?[\w:]*Set<", ty):
        SETS.add(v)
    r = range_of(cx, v, ty)
    if r is not None:
        return r
    if is_option(v) or re.match(r"^(&('\S+ )?)?std::option::Option<", ty):
        return opt_iter(cx, v)
    return mkiter(v, mode, ())


def is_option(v):
    return isinstance(v, T) and (v.op == "adt" and v.a[0].endswith("Option") or v.op == "gate" and any(
        w.op == "adt" and w.a[0].endswith("Option") for w, _ in v.a[0]))


def opt_iter(cx, v):
    g, p = is_some(cx, v), proj(v, "@Some.0")
    return mkiter(mkcat((("one", p, g),)), "vec", ())


def range_of(cx, v, ty=""):
    if isinstance(v, T) and (v.op == "adt" and v.a[0].endswith("RangeInclusive") or "RangeInclusive<" in ty):
        return mkiter(mk("range", proj(v, "start"), lift(proj(v, "end")) + ONE), "range", ())
    if isinstance(v, T) and (v.op == "adt" and v.a[0].endswith("Range") or "ops::Range<" in ty):
        return mkiter(mk("range", proj(v, "start"), proj(v, "end")), "range", ())
    return None


OPTION = re.compile(r"^(&('\S+ )?)?(mut )?std::option::Option<")


def iter_of(cx, v, ty=""):
    """any value used as a sequence"""
    if isinstance(v, T) and v.op == "iter":
        return v
    if OPTION.match(ty):
        return opt_iter(cx, v)
    if isinstance(v, P):
        return mkiter(mk("num", v), "vec", ())
    r = range_of(cx, v, ty)
    if r is not None:
        return r
    if is_option(v):
        return opt_iter(cx, v)
    return mkiter(v, "keys" if is_setish(v) else "kv" if is_mapish(v) else "vec", ())


def is_setish(v):
    if v in SETS:
        return True
    w = v
    while w.op == "mapw":
        if w.a[2] is UNIT:
            return True
        w = w.a[0]
    if w.op == "mapcomp":
        return w.a[2] is UNIT
    return False


@model("std::iter::IntoIterator::into_iter")
def _intoiter(cx):
    ty = (cx.f.get("a") or [""])[0]
    if re.match(r"^&('\S+ )?mut ", ty):
        v = cx.e.deref(cx.st, cx.args[0])
        if not (isinstance(v, T) and v.op == "iter") and ("Map<" in ty or "Vec<" in ty or "[" in ty):
            return _mvaluesmut(cx) if "Map<" in ty else unknown(cx)
    return to_iter(cx)


@mapmodel("iter", "into_iter", "drain")
def _miter(cx):
    v = mapty(cx)
    mode = "keys" if "Set::" in E.sg(cx.f["fn"]) else "kv"
    return mkiter(v, mode, ())


@mapmodel("keys", "into_keys")
def _mkeys(cx):
    return mkiter(mapty(cx), "keys", ())


@mapmodel("values", "into_values")
def _mvalues(cx):
    return mkiter(mapty(cx), "vals", ())


@mapmodel("retain")
def _mretain(cx):
    pl = cx.place(0)
    if len(pl) != 1 or pl[0][0] is None:
        return unknown(cx)
    root, path, _ = pl[0]
    m = cx.e.rd(cx.st, root, path)
    tm.MAPS.add(m)
    isset = "Set::" in E.sg(cx.f["fn"])
    it = mkiter(m, "keys", ()) if isset else mkiter(m, "mut:kv", (("place", root, path),))

    def f(s, x, g):
        args = [x] if isset else [proj(x, "0"), proj(x, "1")]
        k = args[0]
        return tup(k, as_bool(cx.e.call_value(cx.fr, s, g, cx.args[1], args, cx.line)))
    lp = consume(cx, it, f)
    m1 = cx.e.rd(cx.st, root, path)
    if lp.lit is not None:
        for r, g in lp.lit:
            k, c = r.a[0]
            m1 = mapw(m1, k, map_at(m1, k), pmul(map_has(m1, k), c))
    else:
        k, c = lp.result.a[0]
        v = UNIT if isset else map_at(m1, k)
        m1 = mk("mapcomp", lp.coll, k, v, pmul(lp.eguard, c))
        tm.MAPS.add(m1)
    cx.e.wr(cx.st, root, path, m1, ONE)
    return UNIT


@mapmodel("difference", "intersection")
def _setdiff(cx):
    a, b = mapty(cx), mapty(cx, 1)
    return mk("iter", a, "keys", ((cx.f["n"], b),))


@mapmodel("union")
def _setunion(cx):
    return mk("iter", mk("chain", mkiter(mapty(cx), "keys", ()), mkiter(mapty(cx, 1), "keys", ())), "chain", ())


@mapmodel("clear")
def _mclear(cx):
    cx.update(0, lambda o: MAPNEW)
    return UNIT


@mapmodel("values_mut", "iter_mut")
def _mvaluesmut(cx):
    pl = cx.place(0)
    if len(pl) == 1 and pl[0][0] is not None:
        m = cx.e.rd(cx.st, pl[0][0], pl[0][1])
        tm.MAPS.add(m)
        return mkiter(m, "mut:" + ("vals" if cx.f["n"] == "values_mut" else "kv"), (("place", pl[0][0], pl[0][1]),))
    return unknown(cx)


@model("core::slice::<impl>::iter", "std::vec::Vec::iter", "std::vec::Vec::drain")
def _siter(cx):
    return mkiter(cx.d(0), "vec", ())


def stage(name):
    def f(cx):
        it = to_iter(cx)
        more = ()
        if name in FLAT:
            a = cx.f.get("a") or []
            inner = a[1] if name == "flat_map" and len(a) > 1 else ""
            m = re.search(r"(IntoIter|Iter)<('\S+ )?(.*)$", a[0]) if name == "flatten" and a else None
            m = (m.group(3) if m else inner)
            more = (mk("str", "option" if OPTION.match(m.strip()) or re.match(r"^'\S+, std::option", m) else ""),)
        return mk("iter", it.a[0], it.a[1], it.a[2] + ((name,) + tuple(cx.args[1:]) + more,))
    return f


for n in ("map", "filter", "filter_map", "enumerate", "rev", "inspect", "skip", "take", "step_by", "flat_map", "flatten",
          "take_while", "skip_while", "peekable", "fuse"):
    MODELS["std::iter::Iterator::" + n] = stage(n)


def _iclone(cx):
    it = cx.d(0)
    if isinstance(it, T) and it.op == "iter":
        return it
    return to_iter(cx)


MODELS["std::iter::Iterator::cloned"] = _iclone
MODELS["std::iter::Iterator::copied"] = _iclone
MODELS["std::iter::Iterator::by_ref"] = ident


@model("std::iter::Iterator::chain")
def _chain(cx):
    a = to_iter(cx)
    v = cx.e.deref(cx.st, cx.args[1])
    b = iter_of(cx, v, (cx.f.get("a") or ["", ""])[-1])
    return mk("iter", mk("chain", a, b), "chain", ())


@model("std::iter::Iterator::zip")
def _zip(cx):
    a = to_iter(cx)
    v = cx.e.deref(cx.st, cx.args[1])
    b = iter_of(cx, v, (cx.f.get("a") or ["", ""])[-1])
    return mk("iter", mk("zip", a, b), "zip", ())


class Loop:
    pass


def injective(k, coll):
    """different iterations over coll certainly give different k"""
    if not isinstance(k, T):
        return False
    if k.op in ("tup", "adt"):
        return any(injective(x, coll) for x in (k.a[0] if k.op == "tup" else k.a[3]))
    if k.op in ("key", "elem") and k.a[0] is coll:
        return is_mapish(coll)
    return False


def base_elem(v, mode):
    """(coll, element, guard) of a plain collection; fuses comprehensions. None when v is a literal list."""
    if v.op == "mapcomp" and injective(v.a[1], v.a[0]):
        coll, k, x, g = v.a
        if mode == "keys":
            return coll, k, g
        if mode == "vals":
            return coll, x, g
        if mode == "vec" and x is UNIT:
            return coll, k, g
        return coll, tup(k, x), g
    if v.op == "cat":
        sg = v.a[0]
        if len(sg) == 1 and sg[0][0] == "comp":
            return sg[0][1], sg[0][2], sg[0][3]
        if len(sg) == 1 and sg[0][0] == "all":
            c, e, g = base_elem(sg[0][1], mode)
            return c, e, pmul(g, sg[0][2])
        if mode == "vec":
            return v, mk("elem", v), ONE
    if mode in ("keys", "kv", "vals") or is_mapish(v):
        tm.MAPS.add(v)
        k = mk("key", v)
        if mode == "keys":
            return v, k, ONE
        x = map_at(v, k)
        if mode == "vals":
            return v, x, ONE
        return v, tup(k, x), ONE
    return v, mk("elem", v), ONE


def literal(v, mode="vec"):
    if v.op == "mapw":
        # maps of known content: one entry, or entries under distinct constant keys
        base, w = tm.map_chain(v)
        if base.op == "mapnew" and (len(w) == 1 or all(
                tm.eqv(x[0], y[0]) is ZERO for i, x in enumerate(w) for y in w[:i])) and len(w) <= 8:
            return [(k if mode == "keys" or mode == "vec" and x is UNIT else x if mode == "vals" else tup(k, x), p)
                    for k, x, p in w]
        return None
    if v.op == "cat" and len(v.a[0]) <= 90 and all(s[0] == "one" for s in v.a[0]):
        return [(s[1], s[-1]) for s in v.a[0]]
    if v.op == "mapnew":
        return []
    if v.op == "range":
        a, b = v.a
        a, b = lift(a), lift(b)
        n = (b - a).const()
        if n is not None and n <= 12:
            return [(a + C(i), ONE) for i in range(int(n))]
    return None


class Expander:
    """symbolic iteration over an iterator value"""

    def __init__(self, e, fr, line):
        self.e, self.fr, self.line = e, fr, line

    def source(self, it):
        """-> ('lit', [(elem, guard)]) or ('sym', coll, elem, guard)"""
        src, mode, stages = it.a
        if mode == "chain":
            a, b = self.source(src.a[0]), self.source(src.a[1])
            if a[0] == "lit" and b[0] == "lit" and not src.a[0].a[2] and not src.a[1].a[2]:
                return ("lit", a[1] + b[1])
            return ("sym", mk("chainc", src.a[0], src.a[1]), mk("elem", mk("chainc", src.a[0], src.a[1])), ONE)
        if mode == "zip":
            return ("zip", src.a[0], src.a[1])
        if mode.startswith("mut:"):
            c, el, g = base_elem(src, mode[4:])
            root, path = stages[0][1], stages[0][2]
            k = mk("key", src)
            r = ref(root, path + (("at", k),))
            lit = literal(src, "keys")
            if lit is not None:
                at = [(ref(root, path + (("at", x),)), x, p) for x, p in lit]
                return ("lit", [(y if mode == "mut:vals" else tup(x, y), p) for y, x, p in at])
            return ("sym", c, r if mode == "mut:vals" else tup(k, r), g)
        if mode == "range":
            lit = literal(src)
            if lit is not None:
                return ("lit", lit)
            a, b = lift(src.a[0]), lift(src.a[1])
            for t in atoms_of(b):
                # the indexes of a list
                if not a.d and t.op == "len" and b is A(t) and not is_mapish(t.a[0]):
                    return ("sym", t.a[0], A(nn(mk("idx", t.a[0]))), ONE)
            return ("sym", src, A(mk("elem", src)), ONE)
        lit = literal(src, mode)
        if lit is not None:
            return ("lit", lit)
        c, el, g = base_elem(src, mode)
        return ("sym", c, el, g)

    def stages(self, it):
        s = it.a[2]
        if it.a[1].startswith("mut:"):
            s = s[1:]
        return s

    def apply(self, st, stages, elem, guard, g, coll, pos=None):
        """run the stage closures on one element; returns (elem, guard)"""
        e, fr = self.e, self.fr
        for si, s in enumerate(stages):
            n = s[0]
            if n == "map":
                elem = e.call_value(fr, st, pmul(g, guard), s[1], [elem], self.line)
            elif n == "filter":
                c = as_bool(e.call_value(fr, st, pmul(g, guard), s[1], [elem], self.line))
                guard = pmul(guard, c)
            elif n == "filter_map":
                v = e.call_value(fr, st, pmul(g, guard), s[1], [elem], self.line)
                c = e.is_some(v)
                guard = pmul(guard, c)
                elem = proj(v, "@Some.0")
            elif n == "enumerate":
                elem = tup(pos.index(stages, si, guard) if pos is not None else A(nn(mk("idx", coll))), elem)
            elif n in ("inspect", "rev", "peekable", "fuse"):
                pass
            elif n in ("difference", "intersection"):
                h = map_has(s[1], e.deep(st, elem) if isinstance(elem, T) else elem)
                guard = pmul(guard, ONE - h if n == "difference" else h)
            elif n in FLAT:
                v = elem
                if n == "flat_map":
                    v = e.call_value(fr, st, pmul(g, guard), s[1], [elem], self.line)
                v = e.deref(st, v) if isinstance(v, T) else v
                if is_option(v) or s[-1].a[0] == "option":
                    guard = pmul(guard, e.is_some(v))
                    elem = proj(v, "@Some.0")
                else:
                    guard = pmul(guard, A(mk("b", mk("stage", n, (), v if isinstance(v, T) else mk("num", v)))))
            else:
                guard = pmul(guard, A(mk("b", mk("stage", n, tuple(s[1:]), elem if isinstance(elem, T) else mk("num", elem)))))
        return elem, guard


class Position:
    """where an element of an explicit sequence stands: the sequence's conditions, the element's place in it, and
    how many elements reached each counting stage before it"""
    def __init__(self, guards):
        self.guards, self.seen, self.i = guards, {}, 0

    def at(self, i):
        self.i = i
        return self

    def index(self, stages, si, guard):
        here = pmul(self.guards[self.i], guard) if guard is not self.guards[self.i] else guard
        if not rev_order(stages[si + 1:]):
            n = self.seen.get(si, C(0))
            self.seen[si] = n + here
            return n
        # counted in the opposite direction of the traversal
        if any(x[0] not in ("map", "rev", "enumerate", "inspect") for x in stages[:si]):
            return A(nn(mk("idx", mk("counted", tuple(self.guards), C(self.i), C(si)))))
        t = C(0)
        before = range(self.i) if not rev_order(stages[:si]) else range(self.i + 1, len(self.guards))
        for j in before:
            t = t + self.guards[j]
        return t


def nn(t):
    tm.NONNEG.add(t)
    return t


def rev_order(stages):
    return sum(1 for s in stages if s[0] == "rev") % 2 == 1


def sources(ex, st, it, g):
    """-> ('lit', [(elem,guard)]) or ('sym', coll, elem, guard) with zips resolved"""
    s = ex.source(it)
    if s[0] != "zip":
        return s
    a, b = s[1], s[2]
    sa, sb = sources(ex, st, a, g), sources(ex, st, b, g)
    if sa[0] == "lit" and sb[0] == "lit":
        (sa, ta), (sb, tb) = prepared(ex, st, a, g), prepared(ex, st, b, g)
        if ta or tb:
            both = []
            for q, tq in ((sa, ta), (sb, tb)):
                pos, l = Position([x[1] for x in q[1]]), []
                order = list(enumerate(q[1]))
                if rev_order(tq):
                    order.reverse()
                for i, (x, gd) in order:
                    y, gy = ex.apply(st, tq, x, ONE, pmul(g, gd), None, pos.at(i))
                    l.append((y, pmul(gd, gy)))
                both.append(l)
            if all(x[1] is ONE for l in both for x in l):
                return ("lit", [(tup(x, y), ONE) for (x, _), (y, _) in zip(*both)])
    if sa[0] == "lit" and sb[0] == "lit" and not a.a[2] and not b.a[2] and all(x[1] is ONE for x in sa[1] + sb[1]):
        return ("lit", [(tup(x, y), pmul(gx, gy)) for (x, gx), (y, gy) in zip(sa[1], sb[1])])
    if sa[0] == "sym" and sb[0] == "sym" and sa[1] is sb[1] and sa[3] is ONE and sb[3] is ONE:
        xa, ga = ex.apply(st, ex.stages(a), sa[2], ONE, g, sa[1])
        xb, gb = ex.apply(st, ex.stages(b), sb[2], ONE, g, sb[1])
        if ga is ONE and gb is ONE:
            return ("sym", sa[1], tup(xa, xb), ONE)
    if sa[0] == "sym" and sb[0] == "sym":
        # positional pairing: element of a with the element of b at the same index
        xa, ga = ex.apply(st, ex.stages(a), sa[2], ONE, g, sa[1])
        xb, gb = ex.apply(st, ex.stages(b), sb[2], ONE, g, sb[1])
        coll = sa[1]
        return ("sym", coll, tup(xa, mk("zipped", sb[1], xb if isinstance(xb, T) else mk("num", xb), coll)), pmul(sa[3], ga))
    coll = mk("zipc", a, b)
    return ("sym", coll, tup(mk("elem", mk("zl", coll)), mk("elem", mk("zr", coll))), ONE)


FLAT = ("flatten", "flat_map")


def prepared(ex, st, it, g):
    """the source of an iterator and the stages still to run; over explicit sequences, nested sequences are joined and
    parts are taken"""
    src = sources(ex, st, it, g)
    stg = ex.stages(it) if it.a[1] != "zip" else it.a[2]
    n = 0
    while n < len(stg):
        name = stg[n][0]
        if name not in FLAT + ("skip", "take", "step_by", "rev") or src[0] != "lit":
            n += 1
            continue
        if name == "rev":
            if not any(x[0] in FLAT + ("skip", "take", "step_by") for x in stg[n + 1:]):
                n += 1
                continue
        if any(x[0] in ("enumerate",) and rev_order(stg[:n]) for x in stg[:n]):
            return src, stg
        items, pos = [], Position([x[1] for x in src[1]])
        for i, (x, gd) in enumerate(src[1]):
            y, gy = ex.apply(st, stg[:n], x, ONE, pmul(g, gd), None, pos.at(i))
            items.append((y, pmul(gd, gy)))
        if name == "rev":
            items.reverse()
        elif name in FLAT:
            out = []
            for y, gy in items:
                v = y
                if name == "flat_map":
                    v = ex.e.call_value(ex.fr, st, pmul(g, gy), stg[n][1], [y], ex.line)
                v = ex.e.deref(st, v) if isinstance(v, T) else v
                c2 = Ctx(ex.e, ex.fr, st, g, {"fn": "flatten", "n": "flatten"}, [v], ex.line, None)
                inner = iter_of(c2, v, "std::option::Option<" if stg[n][-1].a[0] == "option" else "")
                s2, stg2 = prepared(ex, st, inner, g)
                if s2[0] != "lit":
                    return src, stg
                p2 = Position([x[1] for x in s2[1]])
                order = list(enumerate(s2[1]))
                if rev_order(stg2):
                    order.reverse()
                for i, (x, gd) in order:
                    z, gz = ex.apply(st, stg2, x, ONE, pmul(g, pmul(gy, gd)), None, p2.at(i))
                    out.append((z, pmul(gy, pmul(gd, gz))))
            items = out
        else:
            k = lift(stg[n][1]).const() if not isinstance(stg[n][1], T) or stg[n][1].op != "ref" else None
            if k is None or not all(gd is ONE for _, gd in items):
                return src, stg
            k = int(k)
            items = items[k:] if name == "skip" else items[:k] if name == "take" else items[::k]
        src, stg, n = ("lit", items), stg[n + 1:], 0
    return src, stg


def leaves(old, new, path=()):
    """paths at which two values differ"""
    if old is new:
        return []
    if isinstance(old, T) and isinstance(new, T):
        if old.op == new.op == "adt" and old.a[:3] == new.a[:3]:
            r = []
            for n, a, b in zip(old.a[2], old.a[3], new.a[3]):
                r += leaves(a, b, path + (n if len(old.a) and not old.a[1] in ("Some", "Ok", "Err") else "@%s.%s" % (old.a[1], n),))
            return r
        if old.op == new.op == "tup" and len(old.a[0]) == len(new.a[0]):
            r = []
            for i, (a, b) in enumerate(zip(old.a[0], new.a[0])):
                r += leaves(a, b, path + (str(i),))
            return r
        ba = old.a[0] if old.op == "upd" else old
        bb = new.a[0] if new.op == "upd" else new
        if ba is bb and (old.op == "upd" or new.op == "upd"):
            names = [n for n, _ in (old.a[1] if old.op == "upd" else ())]
            names += [n for n, _ in (new.a[1] if new.op == "upd" else ()) if n not in names]
            r = []
            for n in names:
                a, b = proj(old, n), proj(new, n)
                if isinstance(b, P) and isinstance(a, T):
                    a = lift(a)
                r += leaves(a, b, path + (n,))
            return r
    return [path]


def run_loop(e, fr, st, g, coll, elem, eguard, body, line, more=None):
    """Symbolic execution-free summary of `for elem in coll { body }`.

    body(state, elem, guard) -> (result, back_state or None, exits)
    Mutates st into the state after the loop; returns the last body's (result, exits, hmap)."""
    hs = {}           # (root, path) -> symbol
    nsym = 0
    plain = set()     # map locations that are not updated key by key
    active = e.__dict__.setdefault("active", [])
    if coll in active:
        e.unmodelled["nested loops over one collection in " + fr.b.k] = 1
    for it in range(12):
        s = st.copy()
        for (root, path), (h, sym) in hs.items():
            e.wr(s, root, path, sym)
        saved, e.trace = e.trace, []
        head = s.copy()
        active.append(coll)
        try:
            result, back, exits = body(s, elem, ONE)
        finally:
            active.pop()
            sub, e.trace = e.trace, saved
        new = []
        if back is not None:
            for root in list(head.store):
                a, b = head.store[root], back.store.get(root)
                if b is None or a is b:
                    continue
                if isinstance(a, T) and a.op in ("uninit",):
                    continue
                for path in leaves(a, b):
                    if (root, path) not in hs:
                        # a parent that is already havocked covers it
                        if any(r == root and path[:len(p)] == p for r, p in hs):
                            continue
                        new.append((root, path))
        if not new:
            bad = not_keyed(e, coll, hs, back)
            if not bad:
                break
            for key in bad:
                h, _ = hs[key]
                plain.add(key)
                t = mk("H", coll, h.a[1])
                tm.MAPS.add(t)
                hs[key] = (t, t)
            continue
        for root, path in new:
            for (r, p) in [k for k in hs if k[0] == root and k[1][:len(path)] == path]:
                del hs[(r, p)]
            v = e.rd(st, root, path)
            n = (len(active), nsym)
            nsym += 1
            if isinstance(v, P):
                if is_boolish(e, fr, root, path, v):
                    t = mk("Hb", coll, n)
                else:
                    t = mk("H", coll, n)
                sym = A(t)
            else:
                t = mk("H", coll, n)
                if is_mapish(v):
                    if is_mapish(coll) and (root, path) not in plain and not (deps(v) & {mk("key", coll), mk("elem", coll)}):
                        t = mk("Hm", coll, n, v)
                    tm.MAPS.add(t)
                sym = t
            hs[(root, path)] = (t, sym)
    else:
        raise E.EngError("loop did not stabilise in %s" % fr.b.k)
    lp = Loop()
    lp.coll, lp.elem, lp.eguard, lp.sub, lp.exits, lp.result = coll, elem, eguard, sub, exits, result
    fin = {}
    sysm = {}
    for (root, path), (h, sym) in hs.items():
        v0 = e.rd(st, root, path)
        v1 = e.rd(back, root, path) if back is not None else sym
        if eguard is not ONE:
            v1 = ite(eguard, v1, sym)
        sysm[h] = (v0, v1)
    if more is None or result is ONE:
        closed = closed_counters(coll, hs, sysm, eguard,
                        [1 for _, s, w in exits or () if not (more is not None and (
                            s.known.get(more) == 0 or not cof(w, more, 1).d))], sub)
        if closed and isinstance(result, (T, P, tuple)) and deps(result) & set(closed):
            lp.result = subst(result, closed)
    for (root, path), (h, sym) in hs.items():
        fin[h] = summarise(e, coll, h, sym, sysm[h][0], sysm[h][1], sysm)
    lp.fin = fin
    lp.head = head
    lp.hs = hs
    lp.back = back
    ev = Ev("loop", g, {"coll": coll, "guard": eguard, "elem": elem}, line, fr.b, fr.auth, fr.stack)
    ev.sub = sub
    if sub:
        e.trace.append(ev)
    lp.ev = ev
    # versions changed in the body
    if back is not None:
        for k, v in back.ver.items():
            if v is not st.ver.get(k, VER0):
                st.ver[k] = mk("verloop", st.ver.get(k, VER0), coll, v)
    for (root, path), (h, sym) in hs.items():
        e.wr(st, root, path, fin[h])
    return lp


def closed_counters(coll, hs, sysm, eguard, exits, sub):
    """h' = h + d with d the same in every iteration: in iteration i, h == h0 + d*i; the rest of the loop is
    expressed over i"""
    if eguard is not ONE or exits:
        return None
    allh = set(sysm)
    closed = {}
    for h, (v0, v1) in sysm.items():
        if h.op != "H" or not isinstance(v1, P):
            continue
        if isinstance(v0, T):
            if is_mapish(v0) or v0.op in ("cat", "adt", "tup", "gate", "upd"):
                continue
            v0 = lift(v0)
        d = v1 - A(h)
        if not d.d or deps(d) & allh or has_elem(d, coll):
            continue
        sysm[h] = (v0, v1)
        closed[h] = v0 + pmul(d, A(mk("idx", coll)))
    if not closed:
        return None
    memo = {}
    for h, (v0, v1) in list(sysm.items()):
        if h not in closed and deps(v1) & set(closed):
            sysm[h] = (v0, subst(v1, closed, memo))
    ren_events(sub, closed, memo)
    return closed


def ren_events(sub, m, memo):
    keys = set(m)
    for ev in sub:
        if deps(ev.g) & keys:
            ev.g = subst(ev.g, m, memo)
        for k, v in ev.d.items():
            if isinstance(v, (T, P, tuple)) and deps(v) & keys:
                ev.d[k] = subst(v, m, memo)
        if ev.kind == "loop":
            ren_events(ev.sub, m, memo)


def not_keyed(e, coll, hs, back):
    """map locations assumed to be written only at the current key that are not"""
    keyed = {h: k for k, (h, _) in hs.items() if h.op == "Hm"}
    if not keyed or back is None:
        return []
    bad = set()
    kk = mk("key", coll)
    for key, (h, _) in hs.items():
        v1 = e.rd(back, *key)
        if h.op == "Hm" and isinstance(v1, T):
            b, w = map_chain(v1)
            if b is not h or any(k is not kk for k, _, _ in w):
                bad.add(key)
            d = frozenset().union(*[deps(x) for x in w]) if w else frozenset()
        else:
            d = deps(v1)
        for x in d:
            if x in keyed:
                bad.add(keyed[x])
    return bad


def is_boolish(e, fr, root, path, v):
    if path:
        n = path[-1]
        return isinstance(n, str) and n in tm.BOOLF
    if root[0] == "L" and root[1] == fr.id:
        return fr.b.types[fr.b.locals[root[2]]] == "bool"
    return False


def has_elem(x, coll):
    return any(y.op in ("elem", "key", "idx") and y.a[0] is coll for y in deps(x))


def summarise(e, coll, h, sym, v0, v1, sysm):
    allh = set(sysm)
    if isinstance(v0, P) and isinstance(v1, P):
        if h.op == "Hb":
            c0, c1 = cof(v1, h, 0), cof(v1, h, 1)
            if not (deps(c0) & allh) and c1 is ONE:
                a = mkany(coll, c0) if has_elem(c0, coll) else pmul(c0, ONE - eq0(coll_len(coll), True))
                return v0 + a - pmul(v0, a)
            if not (deps(c1) & allh) and not c0.d:
                a = mkany(coll, ONE - c1)
                return pmul(v0, ONE - a)
            return A(mk("b", fold(coll, v0, v1, h, sysm)))
        d = v1 - sym
        if not (deps(d) & allh):
            return v0 + mksum(coll, d)
        return A(fold(coll, v0, v1, h, sysm))
    if isinstance(v1, P) or isinstance(v0, P):
        return A(fold(coll, v0, v1, h, sysm))
    s1 = segs(v1) if v1.op in ("cat",) or v1 is h else None
    if s1 is not None and s1 and s1[0][0] == "all" and s1[0][1] is h and s1[0][-1] is ONE and not any(
            deps(x) & {h} for x in s1[1:]):
        out = list(segs(v0))
        for s in s1[1:]:
            if s[0] == "one":
                out.append(("comp", coll, s[1], s[-1]))
            elif s[0] == "all":
                out.append(("flat", coll, s[1], s[-1]))
            else:
                out.append(("flat", coll, mkcat((s[:-1] + (ONE,),)), s[-1]))
        return mkcat(tuple(out))
    b, w = map_chain(v1)
    if w and b is h and not any(deps(x) & allh for x in w):
        r = mk("maploop", coll, v0, tuple(w))
        if v0.op == "mapnew" and tm.loop_keyed(r):
            r = mk("mapcomp", coll, *w[0])
        elif v0.op == "mapnew" and len(w) == 1 and w[0][1] is UNIT:
            r = mk("mapcomp", coll, *w[0])
        tm.MAPS.add(r)
        return r
    r = fold(coll, v0, v1, h, sysm)
    if is_mapish(v0):
        tm.MAPS.add(r)
    return r


def fold(coll, v0, v1, h, sysm):
    """opaque result of iterating a system of mutually dependent updates"""
    need, todo = {h}, [h]
    while todo:
        x = todo.pop()
        for y in deps(sysm[x][1]):
            if y in sysm and y not in need:
                need.add(y)
                todo.append(y)
    order = sorted(need, key=lambda t: t.a[1])
    ren = {}
    for x in order:
        t = mk("hb", x.a[1])
        ren[x] = A(mk("b", t)) if x.op == "Hb" else t
    memo = {}
    return mk("fold", coll, mk("hb", h.a[1]),
              tuple((mk("hb", x.a[1]), sysm[x][0], subst(sysm[x][1], ren, memo)) for x in order))


def coll_len(coll):
    if is_mapish(coll):
        return map_len(coll)
    return vec_len(coll)


tm.COLL_LEN = coll_len


def seq(cx, st, g, items, fn):
    """unrolled iteration over a literal list"""
    out = []
    for elem, guard in items:
        if guard is ONE:
            out.append((fn(st, elem, g), guard))
        else:
            s = st.copy()
            cx.e.learn(s, guard)
            r = fn(s, elem, pmul(g, guard))
            m = cx.e.merge_states(cx.fr, [(s, guard), (st.copy(), ONE - guard)])
            st.store, st.known, st.ver = m.store, m.known, m.ver
            out.append((r, guard))
    return out


def consume(cx, it, fn):
    """run fn(state, elem, guard)->value for every element; returns Loop or ('lit', list)"""
    e, fr, st = cx.e, cx.fr, cx.st
    ex = Expander(e, fr, cx.line)
    src, stg = prepared(ex, st, it, cx.g)
    if src[0] == "lit":
        items = src[1]
        res = []
        order = list(enumerate(items))
        if rev_order(stg):
            order.reverse()
        pos = Position([x[1] for x in items])
        for i, (elem, guard) in order:
            def one(s, el, gg, i=i):
                x, gd = ex.apply(s, stg, el, ONE, gg, None, pos.at(i))
                if gd is ONE:
                    return (fn(s, x, gg), ONE)
                s2 = s.copy()
                e.learn(s2, gd)
                r = fn(s2, x, pmul(gg, gd))
                m = e.merge_states(fr, [(s2, gd), (s.copy(), ONE - gd)])
                s.store, s.known, s.ver = m.store, m.known, m.ver
                return (r, gd)
            r = seq(cx, st, cx.g, [(elem, guard)], one)
            (v, gd), g2 = r[0]
            res.append((v, pmul(gd, g2)))
        lp = Loop()
        lp.lit = res
        return lp
    _, coll, elem, guard = src
    if rev_order(stg) and False:
        coll = mk("rev", coll)
    box = {}

    def body(s, el, gg):
        x, gd = ex.apply(s, stg, el, ONE, gg, coll)
        box["x"], box["g"] = x, gd
        if gd is ONE:
            r = fn(s, x, gg)
            return r, s, []
        s2 = s.copy()
        e.learn(s2, gd)
        r = fn(s2, x, pmul(gg, gd))
        m = e.merge_states(fr, [(s2, gd), (s.copy(), ONE - gd)])
        return r, m, []
    lp = run_loop(e, fr, st, cx.g, coll, elem, guard, body, cx.line)
    lp.lit = None
    lp.eguard = pmul(guard, box["g"])
    lp.x = box["x"]
    return lp


@model("std::iter::Iterator::for_each")
def _foreach(cx):
    consume(cx, to_iter(cx), lambda s, x, g: cx.e.call_value(cx.fr, s, g, cx.args[1], [x], cx.line))
    return UNIT


def build(cx, lp, val, ty):
    """container from a loop producing values"""
    return None


@model("std::iter::FromIterator::from_iter")
def _fromiter(cx):
    it = to_iter(Ctx(cx.e, cx.fr, cx.st, cx.g, {"fn": "x", "n": "x", "a": [(cx.f.get("a") or [""])[-1]]}, cx.args,
                     cx.line, None))
    return _collect(Ctx(cx.e, cx.fr, cx.st, cx.g, {"fn": "x", "n": "collect", "a": []}, [it], cx.line,
                        cx.dty or (cx.f.get("a") or [""])[0]))


@model("std::iter::Iterator::collect")
def _collect(cx):
    ty = (cx.f.get("a") or ["", ""])[-1] if len(cx.f.get("a") or []) > 1 else (cx.dty or "")
    ty = cx.dty or ty
    it = to_iter(cx)
    mode = None
    if re.match(r"^(std::collections::HashMap|scrypto::prelude::indexmap::IndexMap|std::collections::BTreeMap)<", ty):
        mode = "map"
    elif re.match(r"^(std::collections::HashSet|scrypto::prelude::indexmap::IndexSet|std::collections::BTreeSet)<", ty):
        mode = "set"
    elif ty.startswith("std::vec::Vec<"):
        mode = "vec"
    m = re.match(r"^std::(option::Option|result::Result)<(.*)>$", ty)
    if m:
        # every element present, or the first missing one
        isres = m.group(1).startswith("result")
        lp = consume(cx, it, lambda s, x, g: tup(proj(cx.e.deref(s, x), "@Ok.0" if isres else "@Some.0"),
                                                 okvariant(cx, cx.e.deref(s, x), "std::result" if isres else None)[0]))
        if lp.lit is not None:
            okall = ONE
            for r, g in lp.lit:
                okall = pmul(okall, ONE - pmul(g, ONE - r.a[0][1]))
        else:
            okall = ONE - mkany(lp.coll, pmul(lp.eguard, ONE - lp.result.a[0][1]))
        v = built(cx, lp, m.group(2), lambda r: (r.a[0][0], ONE))
        return ite(okall, ok(v) if isres else some(v), mk("adt", "std::result::Result", "Err", ("0",), (mk("err"),)) if isres else NONE)
    # plain re-collection of a collection
    if not it.a[2] and it.a[1] in ("vec", "kv", "keys"):
        src = it.a[0]
        if mode in ("map", "set") and it.a[1] == "vec" and src.op == "cat":
            pass
        if mode == "vec" and it.a[1] == "vec":
            return src
        if mode == "map" and it.a[1] == "kv":
            return src
        if mode == "set" and it.a[1] == "keys" and is_setish(src):
            return src
    if mode in ("set", "map") and it.a[1] == "chain" and not it.a[2]:
        m, rest = [_collect(Ctx(cx.e, cx.fr, cx.st, cx.g, cx.f, [side], cx.line, ty)) if not i else side
                   for i, side in enumerate(it.a[0].a)]
        cx.e.fresh += 1
        root = ("E", cx.e.fresh)
        cx.st.store[root] = m

        def add(s, x, g):
            x = cx.e.deep(s, x) if isinstance(x, T) else x
            s.store[root] = mapw(s.store[root], x if mode == "set" else proj(x, "0"),
                                 UNIT if mode == "set" else proj(x, "1"), ONE)
            return UNIT
        consume(cx, rest, add)
        return cx.st.store.pop(root)
    if mode == "vec" and it.a[1] == "chain":
        # concatenation of the two sides
        parts = ()
        for side in it.a[0].a:
            c2 = Ctx(cx.e, cx.fr, cx.st, cx.g, cx.f, [side], cx.line, ty)
            parts += segs(_collect(c2))
        if not it.a[2]:
            return mkcat(parts)
        it = mkiter(mkcat(parts), "vec", it.a[2])
    lp = consume(cx, it, lambda s, x, g: x)
    if lp.lit is not None:
        if mode == "vec":
            return mkcat(tuple(("one", x, g) for x, g in lp.lit))
        m = MAPNEW
        for x, g in lp.lit:
            k, v = (proj(x, "0"), proj(x, "1")) if mode == "map" else (x, UNIT)
            k = cx.e.deep(cx.st, k) if isinstance(k, T) else k
            m = mapw(m, k, ite(g, v, map_at(m, k)) if g is not ONE else v, ite(g, ONE, map_has(m, k)))
        return m
    x = cx.e.deep(cx.st, lp.result) if isinstance(lp.result, T) else lp.result
    g = lp.eguard
    if mode == "vec":
        return mkcat((("comp", lp.coll, x, g),))
    if mode in ("map", "set"):
        k, v = (proj(x, "0"), proj(x, "1")) if mode == "map" else (x, UNIT)
        c = lp.coll
        if g is ONE and k is mk("key", c) and (v is map_at(c, k) or (isinstance(v, P) and v is lift(map_at(c, k)))) and is_mapish(c):
            return c
        if g is ONE and mode == "set" and k is mk("key", c) and c in SETS:
            return c
        r = mk("mapcomp", c, k, v, g)
        tm.MAPS.add(r)
        return r
    return mk("collect", ty, lp.coll, x if isinstance(x, T) else mk("num", x), g)


@model("std::iter::Iterator::sum")
def _isum(cx):
    lp = consume(cx, to_iter(cx), lambda s, x, g: cx.e.num(s, x))
    if lp.lit is not None:
        return tm._sum([pmul(g, x) for x, g in lp.lit])
    return mksum(lp.coll, pmul(lp.eguard, lp.result))


@model("std::iter::Iterator::count")
def _icount(cx):
    lp = consume(cx, to_iter(cx), lambda s, x, g: UNIT)
    if lp.lit is not None:
        return tm._sum([g for x, g in lp.lit])
    return mksum(lp.coll, lp.eguard)


@model("std::iter::Iterator::any", "std::iter::Iterator::all")
def _iany(cx):
    neg = cx.f["n"] == "all"

    def f(s, x, g):
        c = as_bool(cx.e.call_value(cx.fr, s, g, cx.args[1], [x], cx.line))
        return ONE - c if neg else c
    lp = consume(cx, to_iter(cx), f)
    if lp.lit is not None:
        r = ZERO
        for c, g in lp.lit:
            c = pmul(g, c)
            r = r + c - pmul(r, c)
    else:
        r = mkany(lp.coll, pmul(lp.eguard, lp.result))
    return ONE - r if neg else r


@model("std::iter::Iterator::position")
def _iposition(cx):
    lp = consume(cx, to_iter(cx), lambda s, x, g: as_bool(cx.e.call_value(cx.fr, s, g, cx.args[1], [x], cx.line)))
    if lp.lit is not None:
        v, n, at = NONE, ZERO, []
        for c, g in lp.lit:
            at.append(n)
            n = n + g
        for i, (c, g) in reversed(list(enumerate(lp.lit))):
            v = ite(pmul(c, g), some(at[i]), v)
        return v
    c = pmul(lp.eguard, lp.result)
    return opt(mkany(lp.coll, c), A(nn(mk("pos", lp.coll, c))))


@model("std::iter::Iterator::find", "std::iter::Iterator::find_map")
def _ifind(cx):
    fm = cx.f["n"] == "find_map"

    def f(s, x, g):
        v = cx.e.call_value(cx.fr, s, g, cx.args[1], [x], cx.line)
        if fm:
            return tup(proj(v, "@Some.0"), cx.e.is_some(v))
        return tup(x, as_bool(v))
    lp = consume(cx, to_iter(cx), f)
    if lp.lit is not None:
        v = NONE
        for x, g in reversed(lp.lit):
            v = ite(pmul(x.a[0][1], g), some(x.a[0][0]), v)
        return v
    c = pmul(lp.eguard, lp.result.a[0][1])
    x = lp.result.a[0][0]
    return opt(mkany(lp.coll, c), mk("found", lp.coll, c, x if isinstance(x, T) else mk("num", x)))


@model("std::iter::Iterator::fold")
def _ifold(cx):
    e = cx.e
    e.fresh += 1
    root = ("E", e.fresh)
    cx.st.store[root] = cx.args[1]

    def f(s, x, g):
        acc = s.store[root]
        v = e.call_value(cx.fr, s, g, cx.args[2], [acc, x], cx.line)
        s.store[root] = v
        return v
    consume(cx, to_iter(cx), f)
    return cx.st.store.pop(root)


@model("std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::max_by_key", "std::iter::Iterator::min_by_key",
       "std::iter::Iterator::last")
def _imax(cx):
    lp = consume(cx, to_iter(cx), lambda s, x, g: x)
    if lp.lit is not None:
        lp.coll, lp.result, lp.eguard = mk("lits", tuple((x if isinstance(x, T) else mk("num", x), g) for x, g in lp.lit)), UNIT, ONE
    t = mk(cx.f["n"], lp.coll, lp.result if isinstance(lp.result, T) else mk("num", lp.result), lp.eguard)
    return opt(A(mk("b", mk("nonempty", t))), t)


@model("std::iter::Extend::extend")
def _extend(cx):
    it = None
    v = cx.e.deref(cx.st, cx.args[1])
    it = opt_iter(cx, v) if re.match(r"^(&('\S+ )?)?std::option::Option<", (cx.f.get("a") or [""])[-1]) else iter_of(cx, v)
    ty = (cx.f.get("a") or [""])[0]
    isvec = "Vec<" in ty[:20]
    isset = "Set<" in ty
    if isvec and isinstance(v, T) and v.op != "iter" and not is_mapish(v) and not is_setish(v) and \
            re.match(r"^(&(mut )?)?std::vec::Vec<", (cx.f.get("a") or ["", "", ""])[-1]):
        new = segs(cx.e.deep(cx.st, v))
        cx.update(0, lambda o: mkcat(segs(o) + new))
        return UNIT

    def f(s, x, g):
        c2 = Ctx(cx.e, cx.fr, s, g, cx.f, cx.args, cx.line, None)
        x = cx.e.deep(s, x) if isinstance(x, T) else x
        if isvec:
            c2.update(0, lambda o: mkcat(segs(o) + (("one", x, ONE),)))
        elif isset:
            c2.update(0, lambda o: mapw(o, x, UNIT, ONE))
        else:
            c2.update(0, lambda o: mapw(o, proj(x, "0"), proj(x, "1"), ONE))
        return UNIT
    consume(cx, it, f)
    return UNIT


@model("std::iter::Iterator::next")
def _next(cx):
    pl = cx.place(0)
    root, path, g = pl[0]
    v = cx.e.rd(cx.st, root, path)
    if isinstance(v, T) and v.op == "liter":
        ctl = cx.e.loopctl[v.a[0]]
        ctl["used"] = True
        if ctl["mode"] == "const":
            x = ctl["elem"]
            return NONE if x is None else some(x)
        return ite(A(mk("more", v.a[0])), some(ctl["elem_fn"](cx)), NONE)
    if isinstance(v, T) and v.op == "iter":
        # a single explicit next(): element of unknown position
        ex = Expander(cx.e, cx.fr, cx.line)
        src = sources(ex, cx.st, v, cx.g)
        if src[0] == "lit" and not v.a[2]:
            items = src[1]
            if not items:
                return NONE
            if items[0][1] is ONE and v.a[1] == "vec":
                cx.e.wr(cx.st, root, path, mkiter(mkcat(tuple(("one", x, gg) for x, gg in items[1:])), "vec", ()))
                return some(items[0][0])
        if src[0] == "sym" and v.a[1] == "vec" and not v.a[2] and src[1] is v.a[0]:
            cx.e.wr(cx.st, root, path, mk("iterafter", v))
            return opt(ONE - eq0(vec_len(src[1]), True), E.vec_at(src[1], ZERO))
        t = mk("nextof", v)
        cx.e.wr(cx.st, root, path, mk("iterafter", v))
        return t
    return mk("nextof", v)


def mir_loop(e, fr, st, header, body, g):
    """A natural loop of the control-flow graph driven by Iterator::next (or opaque)."""
    if not hasattr(e, "loopctl"):
        e.loopctl = {}
    # candidate drivers: iterators held by the frame when the loop is entered
    cands = [k for k, v in st.store.items() if isinstance(v, T) and v.op == "iter" and k[0] == "L" and k[1] == fr.id]
    driver = find_driver(e, fr, header)
    line = fr.b.line
    if driver is not None:
        cands = [("L", fr.id, driver)]
    cands = [k for k in cands if isinstance(st.store.get(k), T) and st.store[k].op == "iter"]
    cx = Ctx(e, fr, st, g, {"fn": "loop", "n": "loop"}, [], line, None)
    if len(cands) != 1:
        out = unrolled(e, fr, st, body, g)
        return out if out is not None else opaque_loop(e, fr, st, header, body, g)
    root = cands[0]
    it = st.store[root]
    ex = Expander(e, fr, line)
    src, stg = prepared(ex, st, it, g)
    e.fresh += 1
    lid = "l%d" % e.fresh
    liter = mk("liter", lid)
    st.store[root] = liter
    exits = []

    if src[0] == "lit":
        items = list(enumerate(src[1]))
        if rev_order(stg):
            items.reverse()
        w = ONE          # weight of still looping, relative to the header
        pos = Position([x[1] for x in src[1]])
        for i, (elem, guard) in items:
            x, gd = ex.apply(st, stg, elem, guard, g, None, pos.at(i))
            e.loopctl[lid] = {"mode": "const", "elem": x}
            pre = st.copy()
            if gd is not ONE:
                e.learn(st, gd)
            rets, backs, exs = body(st, pmul(g, pmul(w, gd)))
            for tgt, l in exs.items():
                for s, ww in l:
                    exits.append((tgt, s, pmul(pmul(w, gd), ww)))
            for s, ww in rets:
                exits.append(("ret", s, pmul(pmul(w, gd), ww)))
            if not backs:
                if gd is ONE:
                    return exits
                st = pre
                w = pmul(w, ONE - gd)
                continue
            tot = tm._sum([ww for _, ww in backs])
            st = e.merge_states(fr, backs)
            if gd is not ONE:
                st = e.merge_states(fr, [(st, gd), (pre, ONE - gd)])
                w = pmul(w, pmul(gd, tot) + ONE - gd)
            else:
                w = pmul(w, tot)
        e.loopctl[lid] = {"mode": "const", "elem": None}
        rets, backs, exs = body(st, pmul(g, w))
        for tgt, l in exs.items():
            for s, ww in l:
                exits.append((tgt, s, pmul(w, ww)))
        for s, ww in rets:
            exits.append(("ret", s, pmul(w, ww)))
        return exits

    _, coll, elem, eguard = src
    more = mk("more", lid)
    box = {}

    def lbody(s, el, gg):
        box["g"] = ONE

        def efn(c2):
            x, gd = ex.apply(c2.st, stg, el, ONE, gg, coll)
            box["g"] = gd
            return x
        e.loopctl[lid] = {"mode": "sym", "elem_fn": efn}
        rets, backs, exs = body(s, gg)
        allx = [(t, s2, w) for t, l in exs.items() for s2, w in l] + [("ret", s2, w) for s2, w in rets]
        back = None
        if backs:
            back = e.merge_states(fr, backs)
            totb = tm._sum([w for _, w in backs])
        gd = box["g"]
        if back is not None and gd is not ONE:
            pass
        return gd, back, allx
    s0 = st.copy()
    lp = run_loop(e, fr, st, g, coll, elem, eguard, lbody, line, more)
    gd = lp.result
    fin = lp.fin
    full = pmul(eguard, gd)
    lp.ev.d["guard"] = full

    def fixg(tr):
        for ev in tr:
            ev.g = cof(ev.g, more, 1)
            if gd is not ONE and ev.kind != "loop":
                pass
    fixg(lp.sub)
    if gd is not ONE:
        # the loop body only runs for elements passing the filter stages
        sysm = {h: (e.rd(s0, *key), ite(full, e.rd(lp.back, *key), sym)) for key, (h, sym) in lp.hs.items()}
        for key, (h, sym) in lp.hs.items():
            fin[h] = summarise(e, coll, h, sym, sysm[h][0], sysm[h][1], sysm)
            e.wr(st, key[0], key[1], fin[h])
    normal = []
    breaks = []
    for tgt, s, w in lp.exits:
        if s.known.get(more) == 0 or not cof(w, more, 1).d:
            normal.append((tgt, s, cof(w, more, 0)))
        else:
            breaks.append((tgt, s, cof(w, more, 1)))
    hset = set(fin)
    out = []
    totbrk = ZERO
    for i, (tgt, s, w) in enumerate(breaks):
        w = pmul(full, w)
        if deps(w) & hset:
            cond = A(mk("brk", lid, i))
        else:
            cond = mkany(coll, w) if has_elem(w, coll) else pmul(w, ONE - eq0(coll_len(coll), True))
        f = {h: mid_of(coll, h) for h in hset}
        for y in (mk("elem", coll), mk("key", coll)):
            f[y] = mk("found", coll, w if not deps(w) & hset else ONE, y)
        s2 = subst_state(s, f, more)
        # exactly one exit is taken; earlier breaks first
        out.append((tgt, s2, pmul(cond, ONE - totbrk)))
        totbrk = totbrk + pmul(cond, ONE - totbrk)
    for tgt, s, w in normal:
        s2 = subst_state(s, fin, more)
        if len(normal) == 1:
            w = ONE
        out.append((tgt, s2, pmul(w, ONE - totbrk)))
        for k, v in st.ver.items():
            s2.ver[k] = v
    return out


def unrolled(e, fr, st, body, g, limit=24, undecided=4):
    """a loop whose end is decided by what is known at each turn: run turn by turn; None if it is not"""
    n0 = len(e.trace)
    exits, w, s, open_ = [], ONE, st.copy(), 0
    for _ in range(limit):
        rets, backs, exs = body(s, pmul(g, w))
        here = [(t, s2, ww) for t, l in exs.items() for s2, ww in l] + [("ret", s2, ww) for s2, ww in rets]
        exits += [(t, s2, pmul(w, ww)) for t, s2, ww in here]
        backs = [(s2, ww) for s2, ww in backs if ww.d]
        if not backs:
            return exits
        if here:
            open_ += 1
            if open_ > undecided:
                break
        w = pmul(w, tm._sum([ww for _, ww in backs]))
        s = e.merge_states(fr, backs)
    del e.trace[n0:]
    return None


def mid_of(coll, h):
    t = mk("mid", coll, h.op, h.a[1])
    if h.op == "Hb":
        return A(mk("b", t))
    return t


def subst_state(s, f, more):
    n = State({}, {}, {})
    keys = set(f)
    memo = {}
    for k, v in s.store.items():
        if isinstance(v, P) and more in p_inds(v):
            v = cof(v, more, 0)
        if deps(v) & keys:
            v = subst(v, f, memo)
            # a numeric location stays numeric
            if isinstance(v, T) and isinstance(s.store[k], P):
                v = lift(v)
        n.store[k] = v
    for t, v in s.known.items():
        if t is more or deps(t) & (keys | {more}) or any(y.op in ("elem", "key", "idx", "H", "Hb", "Hm", "more") for y in deps(t)):
            continue
        n.known[t] = v
    n.ver = dict(s.ver)
    return n


def find_driver(e, fr, header):
    """local holding the iterator advanced by Iterator::next in the loop headed by `header`"""
    b = fr.b
    c = e.cfg(b)
    body = c.loops[header]
    inner = set()
    for h, bb in c.loops.items():
        if h != header and h in body:
            inner |= bb
    # follow header chain: refs assigned in blocks outside inner loops
    refs = {}
    for i in sorted(body):
        if i in inner:
            continue
        for s in b.blocks[i]["s"]:
            if s[0] == "=" and s[2][0] == "ref" and not s[1][1]:
                refs[s[1][0]] = s[2][2]
    for i in c.rpo:
        if i not in body or i in inner:
            continue
        t = b.blocks[i]["t"]
        if t[0] == "call" and t[1].get("tr") == "std::iter::Iterator" and t[1].get("m") == "next":
            a = t[2][0]
            if a[0] == "k":
                continue
            l = a[1][0]
            for _ in range(6):
                if l in refs:
                    l = refs[l][0]
                else:
                    break
            return l
    return None


def opaque_loop(e, fr, st, header, body, g):
    """loop without a recognised iterator: everything it writes becomes opaque"""
    coll = mk("while", fr.b.k, header)
    elem = mk("elem", coll)

    def lbody(s, el, gg):
        rets, backs, exs = body(s, gg)
        allx = [(t, s2, w) for t, l in exs.items() for s2, w in l] + [("ret", s2, w) for s2, w in rets]
        back = e.merge_states(fr, backs) if backs else None
        return ONE, back, allx
    lp = run_loop(e, fr, st, g, coll, elem, ONE, lbody, fr.b.line)
    f = {h: mid_of(coll, h) for h in lp.fin}
    out = []
    dummy = mk("more", "none")
    n = len(lp.exits)
    for i, (tgt, s, w) in enumerate(lp.exits):
        s2 = subst_state(s, f, dummy)
        wt = A(mk("brk", coll, i)) if i < n - 1 else ONE
        out.append((tgt, s2, wt))
    if len(out) > 1:
        rest = ONE
        o2 = []
        for i, (tgt, s, w) in enumerate(out):
            if i < len(out) - 1:
                o2.append((tgt, s, pmul(rest, w)))
                rest = pmul(rest, ONE - w)
            else:
                o2.append((tgt, s, rest))
        out = o2
    return out


# ------------------------------------------------------------------ closures
@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def _fncall(cx):
    a = cx.e.deref(cx.st, cx.args[1])
    args = list(a.a[0]) if isinstance(a, T) and a.op == "tup" else ([] if a is UNIT else [proj(a, "0")])
    return cx.e.call_value(cx.fr, cx.st, cx.g, cx.args[0], args, cx.line)


# ------------------------------------------------------------------ components
def stub_call(cx, b, stub):
    kind, bp, method, rty = stub
    args = tuple(cx.e.deep(cx.st, a) if isinstance(a, T) else a for a in cx.args[(1 if kind == "method" else 0):])
    if kind == "method":
        recv = cx.d(0)
        if recv.op == "fld" and recv.a[1] == "0":
            recv = recv.a[0]
    else:
        recv = mk("blueprint", bp)
    pure = method.startswith("get_")
    ver = cx.st.ver.get(recv, VER0)
    # what a component reports about itself does not depend on which pairs are asked for: two reads of the same state
    # give the same record (that the reads answer exactly the asked pairs is decided on their bodies)
    ret = mk("ret", bp, method, recv, () if (bp, method) in VIEWS else args, ver)
    if not pure:
        cx.st.ver[recv] = mk("ver", ver, method, args, cx.g)
    rt = norm_crate(rty, b.crate)
    if rt == "()":
        v = UNIT
    elif (bp, method) in SUMMARY:
        v = SUMMARY[bp, method](cx, recv, args, ver)
    else:
        v = cx.e.coerce(ret, rt)
    e = cx.ev("call", bp=bp, method=method, recv=recv, args=args, ret=v, pure=pure)
    return v


def _by_indexes(cx, recv, args, ver):
    """index -> get_request(index): what MarginAccount.get_requests_by_indexes returns (decided by C08 on its body)"""
    it = mkiter(args[0], "vec", ())
    c2 = Ctx(cx.e, cx.fr, cx.st, cx.g, {"fn": "x", "n": "collect"}, [it], cx.line, "std::collections::HashMap<u64, X>")
    lp = consume(c2, it, lambda s, x, g: tup(x, mk("ret", "MarginAccount", "get_request", recv, (x,), ver)))
    m = MAPNEW
    if lp.lit is not None:
        for x, g in lp.lit:
            k, v = proj(x, "0"), proj(x, "1")
            m = mapw(m, k, ite(g, v, map_at(m, k)) if g is not ONE else v, ite(g, ONE, map_has(m, k)))
        return m
    m = mk("mapcomp", lp.coll, proj(lp.result, "0"), proj(lp.result, "1"), lp.eguard)
    tm.MAPS.add(m)
    return m


VIEWS = {("Config", "get_info"), ("MarginPool", "get_info")}
SUMMARY = {("MarginAccount", "get_requests_by_indexes"): _by_indexes}


def global_call(name):
    def f(cx):
        args = tuple(cx.e.deep(cx.st, a) if isinstance(a, T) else a for a in cx.args)
        t = mk("call", name, args)
        cx.ev("engine", op=name, args=args)
        return t
    return f


@model("scrypto::component::Global::address", "scrypto::prelude::Global::address")
def _address(cx):
    v = cx.d(0)
    if v.op == "checked":
        return v.a[1]
    return mk("addr", v)


@model("scrypto::component::ComponentStatePointer::get", "scrypto::component::ComponentStatePointer::get_mut",
       "scrypto::component::ComponentStatePointer::new")
def _csp(cx):
    return cx.args[0] if cx.args else mk("cstate")


@model("scrypto::prelude::Runtime::emit_event")
def _emit(cx):
    v = cx.e.deep(cx.st, cx.args[0])
    cx.ev("emit", event=v, name=v.a[0].split("::")[-1] if v.op == "adt" else "?")
    return UNIT


@model("scrypto::prelude::Runtime::assert_access_rule")
def _aar(cx):
    v = cx.e.deep(cx.st, cx.args[0])
    cx.ev("authcheck", rule=v)
    return UNIT


@model("scrypto::modules::HasRoleAssignment::get_role")
def _getrole(cx):
    recv, role = cx.d(0), cx.d(1)
    ver = cx.st.ver.get(mk("roles", recv), VER0)
    return mk("role", recv, role, ver)


@model("scrypto::modules::HasRoleAssignment::set_role")
def _setrole(cx):
    recv, role, rule = cx.d(0), cx.d(1), cx.e.deep(cx.st, cx.args[2])
    k = mk("roles", recv)
    cx.st.ver[k] = mk("ver", cx.st.ver.get(k, VER0), "set_role", (role, rule), cx.g)
    cx.ev("setrole", recv=recv, role=role, rule=rule)
    return UNIT


@model("scrypto::prelude::ScryptoFungibleVault::authorize_with_amount", "scrypto::prelude::ScryptoVault::authorize_with_amount",
       "scrypto::prelude::ScryptoNonFungibleVault::authorize_with_non_fungibles")
def _authorize(cx):
    vault = cx.d(0)
    amt = cx.n(1) if cx.f["n"] == "authorize_with_amount" else ONE
    cx.ev("authorize", vault=vault, amount=amt)
    return cx.e.call_value(cx.fr, cx.st, cx.g, cx.args[2], [], cx.line, auth=mk("auth", vault, amt))


def set_amt(v, x):
    return set_field(v, "$amt", x)


def amt(v):
    x = proj(v, "$amt")
    return lift(x)


def res(v):
    return proj(v, "$res")


def mkbucket(r, a):
    return mk("adt", "Bucket", "", ("$res", "$amt"), (r, a))


@model("scrypto::prelude::ScryptoBucket::amount", "scrypto::prelude::ScryptoVault::amount")
def _amount(cx):
    v = cx.d(0)
    return amt(v)


@model("scrypto::prelude::ScryptoBucket::is_empty", "scrypto::prelude::ScryptoVault::is_empty")
def _bempty(cx):
    return eq0(amt(cx.d(0)))


@model("scrypto::prelude::ScryptoBucket::resource_address", "scrypto::prelude::ScryptoVault::resource_address")
def _resaddr(cx):
    return res(cx.d(0))


@model("scrypto::prelude::ScryptoBucket::resource_manager", "scrypto::prelude::ScryptoVault::resource_manager")
def _bresmgr(cx):
    return mk("resmgr", res(cx.d(0)))


@model("scrypto::prelude::ScryptoBucket::new")
def _bnew(cx):
    return mkbucket(cx.d(0), ZERO)


@model("scrypto::prelude::ScryptoVault::new")
def _vaultnew(cx):
    return mkbucket(cx.d(0), ZERO)


def round_amt(a, strat):
    if strat is None:
        return a
    return tm.round_(a, strat)


def _take(kind):
    def f(cx):
        n = cx.f["n"]
        strat = None
        if n == "take_advanced":
            strat = cx.d(2)
        if n == "take_all":
            a = None
        else:
            a = cx.n(1)
        out = []

        def up(v):
            x = amt(v) if a is None else round_amt(a, strat)
            out.append((res(v), x))
            return set_amt(v, amt(v) - x)
        pl = cx.place(0)
        before = cx.d(0)
        cx.update(0, up)
        r, x = out[0] if len(out) == 1 else (res(before), amt(before) if a is None else round_amt(a, strat))
        cx.ev("take", where=kind, place=pl, amount=x, asked=a, strat=strat, res=r, before=before)
        return mkbucket(r, x)
    return f


def _put(kind):
    def f(cx):
        b = cx.d(1)
        pl = cx.place(0)
        before = cx.d(0)
        cx.ev("put", where=kind, place=pl, amount=amt(b), res=res(b), into=res(before) if kind == "vault" else None, before=before,
              bucket=b)
        cx.update(0, lambda v: set_amt(v, amt(v) + amt(b)))
        return UNIT
    return f


for n in ("take", "take_all", "take_advanced"):
    MODELS["scrypto::prelude::ScryptoVault::" + n] = _take("vault")
    MODELS["scrypto::prelude::ScryptoBucket::" + n] = _take("bucket")
    MODELS["scrypto::prelude::ScryptoFungibleVault::" + n] = _take("vault")
MODELS["scrypto::prelude::ScryptoVault::put"] = _put("vault")
MODELS["scrypto::prelude::ScryptoBucket::put"] = _put("bucket")


@model("scrypto::prelude::ScryptoVault::with_bucket")
def _withbucket(cx):
    b = cx.d(0)
    cx.ev("put", where="newvault", place=None, amount=amt(b), res=res(b), into=None, before=None, bucket=b)
    return mkbucket(res(b), amt(b))


@model("scrypto::prelude::ScryptoBucket::burn")
def _burn(cx):
    b = cx.d(0)
    cx.ev("burn", res=res(b), amount=amt(b), bucket=b)
    k = mk("resmgr", res(b))
    cx.st.ver[k] = mk("ver", cx.st.ver.get(k, VER0), "burn", (amt(b),), cx.g)
    return UNIT


@model("scrypto::prelude::ScryptoFungibleVault::lock_fee", "scrypto::prelude::ScryptoFungibleVault::lock_contingent_fee")
def _lockfee(cx):
    a = cx.n(1)
    cx.ev("lockfee", how=cx.f["n"], amount=a, vault=cx.d(0), place=cx.place(0))
    cx.update(0, lambda v: set_amt(v, amt(v) - a))
    return UNIT


@model("scrypto::prelude::ResourceManager::from_address")
def _rm(cx):
    return mk("resmgr", cx.d(0))


@model("scrypto::prelude::ResourceManagerStub::mint")
def _mint(cx):
    rm = cx.d(0)
    a = cx.n(1)
    r = rm.a[0] if rm.op == "resmgr" else mk("resof", rm)
    cx.st.ver[rm] = mk("ver", cx.st.ver.get(rm, VER0), "mint", (a,), cx.g)
    cx.ev("mint", rm=rm, res=r, amount=a)
    return mkbucket(r, a)


@model("scrypto::prelude::ResourceManagerStub::total_supply")
def _supply(cx):
    rm = cx.d(0)
    return some(A(mk("supply", rm, cx.st.ver.get(rm, VER0))))


@model("scrypto::prelude::ResourceManagerStub::amount_for_withdrawal")
def _afw(cx):
    return round_amt(cx.n(1), mk("wd", cx.d(2), cx.d(0)))


@model("scrypto::prelude::ResourceManagerStub::mint_ruid_non_fungible", "scrypto::prelude::ResourceManagerStub::mint_non_fungible")
def _mintnf(cx):
    rm = cx.d(0)
    data = cx.e.deep(cx.st, cx.args[-1])
    ver = cx.st.ver.get(rm, VER0)
    cx.st.ver[rm] = mk("ver", ver, "mint", (data,), cx.g)
    cx.ev("mintnf", rm=rm, data=data)
    return mk("nfbucket", rm, data, ver)


def nf_key(v):
    """resource and local id of a token named in any of the ways a program can name it, as one term"""
    if v.op == "nf" and isinstance(v.a[0], T) and v.a[0].op == "nfgid":
        return mk("nfid", mk("resmgr", v.a[0].a[0]), v.a[0].a[1])
    if v.op == "nfm" and v.a[0] == "non_fungible" and v.a[1].op == "checkedproof":
        return mk("nfid", mk("resmgr", v.a[1].a[1]), mk("nfm", "local_id", v))
    return v


def nf_data(cx, key):
    """the record, with the changes made to it so far in this call"""
    t = mk("nfdata", key)
    if key.op == "nfid" and isinstance(key.a[1], T) and key.a[1].op == "nfm" and key.a[1].a[0] == "non_fungible_local_id":
        b = key.a[1].a[1]
        if isinstance(b, T) and b.op == "nfbucket" and b.a[0] is key.a[0]:
            t = b.a[1]                          # a badge minted in this very call

    def now(v):
        if v is VER0:
            return t
        if v.op == "gate":
            return tm.gate([(now(w), g) for w, g in v.a[0]])
        return mk("nfdata", key, v) if v.op in ("ver", "verloop") else v
    return now(cx.st.ver.get(mk("nfrecord", key), VER0))


@model("scrypto::prelude::ResourceManagerStub::update_non_fungible_data")
def _unfd(cx):
    i = cx.e.deep(cx.st, cx.args[1])
    cx.ev("nfupdate", rm=cx.d(0), id=i, field=cx.d(2), value=cx.d(3))
    key = mk("nfid", cx.d(0), i)
    n = show(cx.d(2), 3).strip("'\"")
    cx.st.ver[mk("nfrecord", key)] = tm.set_field(nf_data(cx, key), n, cx.d(3))
    return UNIT


@model("scrypto::prelude::ResourceManagerStub::get_non_fungible_data")
def _gnfd(cx):
    return nf_data(cx, mk("nfid", cx.d(0), cx.e.deep(cx.st, cx.args[1])))


@model("scrypto::prelude::NonFungible::data")
def _nfdata(cx):
    return nf_data(cx, nf_key(cx.d(0)))


@model("scrypto::prelude::NonFungible::local_id", "scrypto::prelude::NonFungible::global_id",
       "scrypto::prelude::ScryptoNonFungibleBucket::non_fungible_local_id",
       "scrypto::prelude::ScryptoNonFungibleBucket::non_fungible", "scrypto::prelude::ScryptoNonFungibleProof::non_fungible")
def _nfmisc(cx):
    return mk("nfm", cx.f["n"], cx.d(0))


@model("scrypto::prelude::NonFungibleGlobalId::new")
def _nfgid(cx):
    return mk("nfgid", cx.e.deep(cx.st, cx.args[0]), cx.e.deep(cx.st, cx.args[1]))


@model("scrypto::prelude::ScryptoUncheckedProof::check_with_message", "scrypto::prelude::ScryptoUncheckedProof::check")
def _check(cx):
    p, r = cx.d(0), cx.d(1)
    cx.ev("proofcheck", proof=p, res=r)
    return mk("checkedproof", p, r)


@model("scrypto::prelude::scrypto_encode")
def _enc(cx):
    return ok(mk("enc", cx.e.deep(cx.st, cx.args[0])))


@model("scrypto::prelude::scrypto_decode")
def _dec(cx):
    v = cx.e.deep(cx.st, cx.args[0])
    a = cx.f.get("a") or [""]
    if v.op == "enc":
        return ok(v.a[0])
    return ok(mk("dec", norm_crate(a[0], cx.fr.b.crate), v))


for _n in ("CryptoUtils::bls12381_v1_verify",):
    def _bls(cx):
        args = tuple(cx.e.deep(cx.st, a) if isinstance(a, T) else a for a in cx.args)
        return A(mk("b", mk("blsverify", args)))
    MODELS[_n] = _bls


def pure(name):
    def f(cx):
        args = tuple(cx.e.deep(cx.st, a) if isinstance(a, T) else a for a in cx.args)
        return mk("call", name, args)
    return f


for n in ("CryptoUtils::keccak256_hash", "Runtime::bech32_encode_address", "Runtime::package_address", "Runtime::global_component",
          "scrypto::prelude::global_caller", "scrypto::prelude::require", "AccessRuleNode::and",
          "scrypto::prelude::Runtime::get_usd_price",
          "ComponentAddress::new_or_panic", "ResourceAddress::new_or_panic", "PackageAddress::new_or_panic", "UncheckedUrl::of",
          "std::fmt::format", "Arguments::from_str", "Arguments::new", "core::fmt::rt::Argument::new_display",
          "core::fmt::rt::Argument::new_debug", "scrypto::prelude::RoleList::none"):
    MODELS[n] = pure(n.split("::")[-1])


@model("Argument::new_display", "Argument::new_debug")
def _fmtarg(cx):
    return mk("fmtarg")


@model("std::fmt::Arguments::new", "std::fmt::Arguments::from_str", "std::fmt::format")
def _fmta(cx):
    return mk("call", "fmt", tuple(cx.e.deep(cx.st, a) if isinstance(a, T) else a for a in cx.args))


@model("Account::try_deposit_batch_or_abort")
def _acctdep(cx):
    cx.ev("deposit_account", account=cx.d(0), buckets=cx.e.deep(cx.st, cx.args[1]))
    return UNIT


@model("Account::try_deposit_or_abort")
def _acctdep1(cx):
    cx.ev("deposit_account", account=cx.d(0), buckets=mk("cat", (("one", cx.e.deep(cx.st, cx.args[1]), ONE),)))
    return UNIT


@model("ToPrimitive::to_i16")
def _toi16(cx):
    return opt(A(mk("b", mk("fits_i16", cx.n(0)))), A(mk("toi16", cx.n(0))))


# ------------------------------------------------------------------ component instantiation, roles and resource builders
@model("scrypto::prelude::new")
def _inewmap(cx):
    return MAPNEW


@model("scrypto::prelude::RoleList::none")
def _rlnone(cx):
    return MAPNEW


@model("scrypto::prelude::RoleList::insert")
def _rlinsert(cx):
    k = key_of(cx, 1)
    cx.update(0, lambda m: mapw(m, k, UNIT, ONE))
    return ONE


@model("scrypto::prelude::RoleAssignmentInit::new")
def _rainew(cx):
    return MAPNEW


@model("scrypto::prelude::RoleAssignmentInit::define_role")
def _defrole(cx):
    k = key_of(cx, 1)
    v = cx.e.deep(cx.st, cx.args[2]) if isinstance(cx.args[2], T) else cx.args[2]
    cx.update(0, lambda m: mapw(m, k, v, ONE))
    return UNIT


for _n in ("scrypto::prelude::MethodKey::new", "scrypto::prelude::ToRoleEntry::to_role_entry", "scrypto::prelude::ModuleName::new"):
    MODELS[_n] = ident_deref

for _n in ("scrypto::component::ComponentState::instantiate", "scrypto::component::Globalizing::globalize",
           "scrypto::component::Globalizing::roles", "scrypto::component::Globalizing::with_address",
           "scrypto::component::Globalizing::metadata", "scrypto::component::HasTypeInfo::blueprint_id",
           "scrypto::component::Owned::prepare_to_globalize", "scrypto::prelude::CreateWithNoSupplyBuilder::create_with_no_initial_supply",
           "scrypto::prelude::InProgressResourceBuilder::new", "scrypto::prelude::InProgressResourceBuilder::divisibility",
           "scrypto::prelude::InProgressResourceBuilder::mint_initial_supply", "scrypto::prelude::NonFungibleResourceType::new",
           "scrypto::prelude::RemoteNonFungibleDataSchema::new", "scrypto::prelude::ResourceBuilder::new_fungible",
           "scrypto::prelude::Runtime::allocate_component_address", "scrypto::prelude::ScryptoVmV1Api::kv_store_new",
           "scrypto::prelude::UpdateAuthBuilder::mint_roles", "scrypto::prelude::UpdateAuthBuilder::recall_roles",
           "scrypto::prelude::UpdateAuthBuilder::burn_roles",
           "scrypto::prelude::UpdateMetadataBuilder::metadata", "scrypto::modules::HasMetadata::get_metadata",
           "scrypto::prelude::UpdateAuthBuilder::deposit_roles", "scrypto::prelude::UpdateAuthBuilder::withdraw_roles",
           "scrypto::prelude::UpdateAuthBuilder::freeze_roles",
           "scrypto::prelude::UpdateAuthBuilder::non_fungible_data_update_roles",
           "scrypto::component::Globalizing::enable_component_royalties", "scrypto::prelude::RoyaltyRoles::list"):
    MODELS[_n] = pure(_n.split("::")[-1])


@model("scrypto::prelude::KeyValueStoreInit::new")
def _kvinew(cx):
    return MAPNEW


@model("KeyValueStoreInit::set_metadata", "KeyValueStoreInit::set_and_lock_metadata", "<impl>::set_metadata",
       "<impl>::set_and_lock_metadata", "scrypto::object_modules::metadata::models::<impl>::set_metadata",
       "scrypto::object_modules::metadata::models::<impl>::set_and_lock_metadata")
def _setmeta(cx):
    k = key_of(cx, 1)
    v = cx.e.deep(cx.st, cx.args[2]) if isinstance(cx.args[2], T) else cx.args[2]
    cx.update(0, lambda m: mapw(m, k, v if isinstance(v, T) else mk("num", v), ONE))
    return UNIT
