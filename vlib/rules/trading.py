"""C10-C14, C17-C19: orders compared with the specification, case by case."""
from rules.model import *

Q = Req()
PAIR = f(Q.mo, "pair_id")
AMT = fn_(Q.mo, "amount")
POS = arg("position_order")
PAMT = fn_(POS, "amount")
REFERRED = is_some(f(ACC, "referral_id"))
PLAN = {"no time passed": True, "no margin": True, "no cap": True, "price fell": False}
ORDER = (ONE - Q.expired, Q.order)


def gt0(p):
    return lt0(-p)


class Shape:
    def __init__(self, name, facts, held=True, reduce=False, vals=()):
        self.name, self.facts, self.held, self.reduce, self.vals = name, tuple(facts), held, reduce, tuple(vals)


BUY, SELL, LONG, SHORT = gt0(AMT), lt0(AMT), gt0(PAMT), lt0(PAMT)
SHAPES = [
    Shape("opens a long", (BUY,), False), Shape("opens a short", (SELL,), False),
    Shape("adds to a long", (BUY, LONG)), Shape("adds to a short", (SELL, SHORT)),
    Shape("sells against a long", (SELL, LONG)), Shape("buys against a short", (BUY, SHORT)),
    Shape("closes exactly a long", (LONG,), vals=((f(Q.mo, "amount"), -PAMT),)),
    Shape("closes exactly a short", (SHORT,), vals=((f(Q.mo, "amount"), -PAMT),)),
    Shape("reduce-only sells against a long", (SELL, LONG), reduce=True),
    Shape("reduce-only buys against a short", (BUY, SHORT), reduce=True),
    Shape("reduce-only without position", (BUY,), False, reduce=True),
    Shape("reduce-only adds to a long", (BUY, LONG), reduce=True),
    Shape("reduce-only adds to a short", (SELL, SHORT), reduce=True),
]


def shape(n):
    return [s for s in SHAPES if s.name == n][0]


def order_scene(ck, sh, label, facts=(), referral="none", idle=True, **kw):
    fm = fn_(arg("dummy"), "x")
    rf = REFERRED if referral == "some" else ONE - REFERRED
    red = boolv(f(Q.mo, "reduce_only"))
    kw.setdefault("positions", (PAIR,) if sh.held else ())
    s = Scene(ck, "process_request", label, pairs=(PAIR,), idle=idle,
              facts=ORDER + (gt0(price_of(PAIR)), red if sh.reduce else ONE - red, rf) + sh.facts + tuple(facts),
              vals=((f(Q.mo, "activate_requests"), vec()), (f(Q.mo, "cancel_requests"), vec())) + sh.vals, price_updates="none", **kw)
    s.referred = referral == "some"
    return s


def amount(sh):
    return fn_(Q.mo, "amount")


def bounds(x):
    """what configuration validation guarantees (C28), as far as a case needs it"""
    return (gt0(fn_(x.cfg, "exchange.fee_max")),)


def explore(ck, make, plan, run, check, what, limit=200):
    """compare the operation with its specification in every case of the specification"""
    b = bounds(make(what, ()))
    s = make(what, b)
    n = 0
    for c in cases(s, plan, run, limit):
        x = make("%s, %s" % (what, label(c)), b + tuple(c.facts))
        with x.given():
            no = [nm for nm, cond in c.asserts if not cond.d]
            if no:
                ck.ob("%s: refused (%s)" % (what, no[0]), x.r.must(ZERO), x.r)
            else:
                check(ck, x, c, what)
        n += 1
    ck.note("%s: %d cases" % (what, n))


def run_order(ck, sh, plan, check, referral="none", idle=True, facts=(), limit=200, **kw):
    explore(ck, lambda lab, fs: order_scene(ck, sh, lab, tuple(facts) + tuple(fs), referral, idle, **kw), dict(PLAN, **plan),
            lambda sp: sp.margin_order(PAIR, amount(sh), sh.reduce), check,
            sh.name + (" with a referral" if referral == "some" else ""), limit)


def musts(names):
    def check(ck, x, sp, what):
        n = 0
        for name, cond in sp.asserts:
            if any(name.startswith(m) for m in names):
                ck.must(x.r, "%s: %s" % (what, name), cond)
                n += 1
        return n
    return check


# ---- positions of an account, for the operations that take a whole account
PA, PB, TA, TB, FA, FB = arg("pair_a"), arg("pair_b"), arg("token_a"), arg("token_b"), arg("feed_a"), arg("feed_b")


def held(k, side):
    a = fn_(arg("position_" + name(k)), "amount")
    return gt0(a) if side == "long" else lt0(a)


class Holding:
    """an account: positions (pair -> side), collateral tokens and how many of them are configured"""
    def __init__(self, nm, positions, tokens=(), collaterals=None):
        self.name, self.positions, self.tokens = nm, dict(positions), tuple(tokens)
        self.collaterals = dict(collaterals or {})

    def scene(self, ck, method, lab, facts, referral, pairs=(), **kw):
        rf = REFERRED if referral == "some" else ONE - REFERRED
        ks = set(self.positions) | set(pairs)
        fs = tuple(held(k, v) for k, v in self.positions.items()) + tuple(gt0(price_of(k)) for k in sorted(ks, key=lambda k: k.id))
        fs += tuple(gt0(price_of(k)) for k in self.collaterals.values() if k not in ks)
        fs += tuple(gt0(balance(t)) for t in self.tokens)
        s = Scene(ck, method, lab, positions=tuple(self.positions), tokens=self.tokens, collaterals=self.collaterals, pairs=pairs,
                  facts=fs + (rf,) + tuple(facts), price_updates="none", **kw)
        s.referred = referral == "some"
        return s


HOLDINGS = [
    Holding("long", {PA: "long"}), Holding("short", {PA: "short"}),
    Holding("long and collateral", {PA: "long"}, (TA,), {TA: FA}),
    Holding("short, collateral priced by the same pair", {PA: "short"}, (TA,), {TA: PA}),
    Holding("long and two collaterals", {PA: "long"}, (TA, TB), {TA: FA, TB: FB}),
    Holding("short and an unconfigured token", {PA: "short"}, (TA, TB), {TA: FA}),
    Holding("collateral only", {}, (TA,), {TA: FA}), Holding("nothing", {}),
]
PAIRS2 = [Holding("%s and %s" % (a, b), {PA: a, PB: b}) for a in ("long", "short") for b in ("long", "short")]
POS1 = {"closing fee negative %s": False}


def c12(ck):
    def check(ck, x, sp, what):
        pool_positions(ck, x, sp, what)
        acc_positions(ck, x, sp, what)
        totals(ck, x, sp, what, ("skew_abs_snap", "pnl_snap"), False)
    plan = {"opening fee negative": False, "opening fee capped": False, "closing fee negative": False, "closing fee capped": False}
    ck.par([lambda c, sh=sh: run_order(c, sh, plan, check) for sh in SHAPES])


def c13(ck):
    def check(ck, x, sp, what):
        distributed(ck, x, sp, what)
        rewarded(ck, x, sp, what)
        totals(ck, x, sp, what, ("virtual_balance", "pnl_snap"), True)
        pool_positions(ck, x, sp, what, ("cost",))
        acc_positions(ck, x, sp, what, ("cost",))
    ck.par([lambda c, sh=sh, rf=rf: run_order(c, sh, {"short skew": sh.name.startswith("sells")}, check, rf)
            for rf in ("some", "none") for sh in SHAPES])


# ---- liquidation
def liquidation(ck, h, plan, check, referral="none", idle=True, limit=200):
    plan = dict(PLAN, **plan)
    explore(ck, lambda lab, fs: h.scene(ck, "liquidate", lab, (ONE - lt0(fn_(bucket_in("liquidate"), "$amt")),) + tuple(fs), referral, idle=idle),
            dict(plan, shortfall=True) if not h.positions and not h.collaterals else plan,
            lambda sp: sp.liquidate(fn_(bucket_in("liquidate"), "$amt")), check,
            h.name + (" with a referral" if referral == "some" else ""), limit)


def bucket_in(m):
    b = find("exchange", m)
    for i in range(2, b.n + 1):
        if "Bucket" in b.types[b.locals[i]]:
            return arg(b.names[i])
    raise Missing("%s takes no bucket" % m)


def bucket_is(ck, rule, b, res, amt, where):
    ok = isinstance(b, T) and eqv(f(b, "$res"), res) is ONE
    ck.ob(rule + " (token)", ok, where, show(b, 4)[:300])
    ck.same(rule + " (amount)", fn_(b, "$amt"), amt, where)


def base_only(ck, r, pay, what):
    ck.must(r, "%s: the payment is in the base token" % what, eqv(f(pay, "$res"), BASE))


def c15(ck):
    def check(ck, x, sp, what):
        r = x.r
        if x.positions or x.collaterals:
            musts(("only below", "the payment covers"))(ck, x, sp, what)
        totals(ck, x, sp, what)
        pool_positions(ck, x, sp, what)
        acc_positions(ck, x, sp, what)
        distributed(ck, x, sp, what)
        rewarded(ck, x, sp, what)
        pay = bucket_in("liquidate")
        base_only(ck, r, pay, what)
        w = [e for e, p in r.calls("MarginAccount", "withdraw_collateral_batch")]
        want = {t: b for t, b in x.bal.items() if t in x.cc}
        if ck.ob("%s: collateral withdrawn once" % what, len(w) == 1 and w[0].g is ONE or not w and not want, r):
            if w:
                same_pairs(ck, "%s: all configured collateral is withdrawn" % what, w[0].d["args"][0], want, w[0])
                ck.ob("%s: collateral rounded down" % what, w[0].d["args"][1] is TO_ZERO, w[0], show(w[0].d["args"][1]))
        got = entries(f(r.ret, "0"))
        got = None if got is None else sorted((f(b, "$res").id, fn_(b, "$amt").id) for b, g in got if g is ONE) + [0 for b, g in got if g is not ONE]
        want = [(f(pay, "$res"), fn_(pay, "$amt") - sp.payment)] + [(t, rounding(b, TO_ZERO, t)) for t, b in want.items()]
        ck.ob("%s: the liquidator gets the collateral and the unused payment" % what, got == sorted((a.id, b.id) for a, b in want), r,
              show(f(r.ret, "0"), 6)[:500])
        dep = [e for e, p in r.calls("MarginPool", "deposit")]
        ck.ob("%s: the payment goes to the pool" % what, len(dep) == 1 and dep[0].g is ONE, r)
        for e in dep:
            bucket_is(ck, "%s: the pool receives the discounted collateral value" % what, e.d["args"][0], f(pay, "$res"), sp.payment, e)
        moved = [e for e, p in r.calls() if e.d["bp"] in ("MarginAccount", "MarginPool") and e.d["method"] not in
                 READ_ONLY + ("update", "withdraw_collateral_batch", "deposit")]
        ck.ob("%s: nothing else is moved" % what, not moved, moved[0] if moved else r)
        ck.same("%s: earlier requests become invalid" % what, fn_(x.upd, "valid_requests_start", "u64"), fn_(ACC, "requests_len", "u64"), r)
    par = []
    for h in HOLDINGS:
        for rf in ("none", "some") if h.positions else ("none",):
            par.append((h, rf, {} if len(h.collaterals) < 2 else FLAT))
    par += [(h, "none", FLAT) for h in PAIRS2]
    ck.par([lambda c, a=a: liquidation(c, a[0], a[2], check, a[1]) for a in par])
    x = Holding("nothing", {}).scene(ck, "liquidate", "nothing", (), "none")
    with x.given():
        ck.must(x.r, "nothing: only below the maintenance margin", lt0(fn_(ACC, "virtual_balance")))


READ_ONLY = ("get_info", "get_request", "get_requests", "get_requests_tail", "get_requests_by_indexes", "get_active_requests")
FLAT = {"closing fee negative": False, "closing fee capped": False}


# ---- auto-deleveraging
K0 = arg("pair_id")


def adl_scene(ck, h, lab, facts, referral, idle):
    return h.scene(ck, "auto_deleverage", lab, tuple(facts), referral, pairs=(K0,), idle=idle)


def c16(ck):
    def check(ck, x, sp, what):
        musts(("only ",))(ck, x, sp, what)
        totals(ck, x, sp, what)
        pool_positions(ck, x, sp, what)
        acc_positions(ck, x, sp, what)
        distributed(ck, x, sp, what)
        rewarded(ck, x, sp, what)
    hs = [Holding(s, {K0: s}) for s in ("long", "short")]
    hs.append(Holding("long and another position", {K0: "long", PB: "short"}, (TA,), {TA: FA}))
    def go(c, h, rf):
        explore(c, lambda lab, fs: adl_scene(c, h, lab, fs, rf, True), dict(PLAN), lambda sp: sp.adl(K0), check,
                h.name + (" with a referral" if rf == "some" else ""))
    ck.par([lambda c, h=h, rf=rf: go(c, h, rf) for h in hs for rf in ("none", "some")])
    x = Holding("no position", {}).scene(ck, "auto_deleverage", "no position", (), "none", pairs=(K0,), idle=True)
    ck.ob("no position: refused", x.r.must(ZERO), x.r)


# ---- limits on what an order may do
OPENING = ("opens a long", "opens a short", "adds to a long", "adds to a short", "sells against a long", "buys against a short")
OTHER = arg("other_pair")


def order_kw(other=None, tokens=(), collaterals=None):
    fs = ()
    kw = {"tokens": tuple(tokens), "collaterals": dict(collaterals or {})}
    fs += tuple(gt0(balance(t)) for t in tokens) + tuple(gt0(price_of(k)) for k in kw["collaterals"].values() if k is not PAIR)
    if other:
        fs += (held(OTHER, other), gt0(price_of(OTHER)))
    return kw, fs


def c14(ck):
    """an order that opens leaves the account with at least the initial margin"""
    check = musts(("margin is sufficient",))
    plan = {"no margin": False, "opening fee negative": False, "opening fee capped": False, "closing fee negative": False,
            "closing fee capped": False, "short skew": False}
    tasks = []
    for n in OPENING:
        for rf in ("none", "some"):
            tasks.append((n, rf, None, (), {}, {}))
        for other in ("long", "short"):
            tasks.append((n, "none", other, (TA,), {TA: FA}, {"valuation fee negative": False, "valuation fee capped": False}))
        tasks.append((n, "none", None, (TA, TB), {TA: FA, TB: FB}, {"valuation fee negative": False, "valuation fee capped": False}))
        tasks.append((n, "none", None, (TA, TB), {TA: FA}, {"valuation fee negative": False, "valuation fee capped": False}))

    def go(c, n, rf, other, tokens, coll, p):
        sh = shape(n)
        kw, fs = order_kw(other, tokens, coll)
        if other:
            kw["positions"] = ((PAIR,) if sh.held else ()) + (OTHER,)
        run_order(c, sh, dict(plan, **p), check, rf, True, fs, **kw)
    ck.par([lambda c, a=a: go(c, *a) for a in tasks])


DECIDED = {"opening fee negative": False, "opening fee capped": False, "closing fee negative": False, "closing fee capped": False}


def c17(ck):
    """after an order the pool's skew is below the cap, or the order did not raise it"""
    check = musts(("pool skew",))
    plan = {"no cap": False, "short skew": None, "pool value below one": None}
    ck.par([lambda c, n=n, rf=rf: run_order(c, shape(n), dict(plan, **DECIDED), check, rf)
            for n in [s.name for s in SHAPES] for rf in ("none", "some")])


def c18(ck):
    """open interest and number of positions stay within the configured limits"""
    check = musts(("open interest", "number of positions"))
    tasks = [(n, None) for n in OPENING] + [(n, o) for n in OPENING for o in ("long", "short")]

    def go(c, n, other):
        sh = shape(n)
        kw, fs = order_kw(other)
        if other:
            kw["positions"] = ((PAIR,) if sh.held else ()) + (OTHER,)
        run_order(c, sh, dict(DECIDED, **{"short skew": False}), check, "none", True, fs, **kw)
    ck.par([lambda c, a=a: go(c, *a) for a in tasks])


def limit_is(field, v):
    return A(mk("is", f(Q.mo, field), v))


def c19(ck):
    """price limit, slippage limit and reduce-only of an order"""
    pl, sl = f(Q.mo, "price_limit"), f(Q.mo, "slippage_limit")

    def check(ck, x, sp, what):
        fee, value = sp.trade
        gte, lte = f(pl, "@Gte.0"), f(pl, "@Lte.0")
        ck.must(x.r, "%s: price at or above the limit" % what, ONE - lt0(price_of(PAIR) - num(gte)), limit_is("price_limit", "Gte"))
        ck.must(x.r, "%s: price at or below the limit" % what, ONE - lt0(num(lte) - price_of(PAIR)), limit_is("price_limit", "Lte"))
        ck.must(x.r, "%s: fee within the percentage of the traded value" % what,
                ONE - lt0(pscale(value * num(f(sl, "@Percent.0")), Fr(1, 100)) - fee), limit_is("slippage_limit", "Percent"))
        ck.must(x.r, "%s: fee within the absolute limit" % what, ONE - lt0(num(f(sl, "@Absolute.0")) - fee), limit_is("slippage_limit", "Absolute"))
        if what.startswith("reduce-only"):
            acc_positions(ck, x, sp, what, ("amount",))
    ck.par([lambda c, sh=sh, rf=rf: run_order(c, sh, {"short skew": False}, check, rf) for rf in ("none", "some") for sh in SHAPES])
