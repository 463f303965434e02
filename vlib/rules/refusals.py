"""C41: operations that meet their stated conditions are carried out."""
from rules.trading import *
from rules.requests import is_st, OPEN, coll_len, get_req
from rules.prices import ages
from rules.assets import *
from rules.funding import update_scene, CALM


MAX = mk("const", "named", "scrypto::prelude::Decimal::MAX")    # no number is larger


def configured(r, pairs=()):
    """the pairs have a configuration, the account has its rules"""
    out = [is_some(mk("role", acct(), mk("str", "level_%d" % n), eng.VER0)) for n in (1, 2, 3)]
    for pc in {f(e.d["ret"], "pair_configs") for e, p in r.calls("Config", "get_info")}:
        out.append(A(mk("is", map_at(pc, mk("key", pc)), "Some")))
        for k in pairs:
            out += [map_has(pc, k), is_some(map_at(pc, k))]
    return out


def priced(x, pairs, strict):
    """prices are positive and no older than allowed"""
    out = []
    for k in [k for k in pairs if k in x.quote]:
        q = fn_(quote(k), "0")
        out.append(ONE - lt0(q) - tm.eq0(q))
        out += [ONE - lt0(x.time(k) + a - now() - 1, True) for n, a in ages(x, k, strict) + [("any time", C(2 ** 63 - 1))]]
    return out


def limits_of_order(sp):
    fee, value = sp.trade
    pl, sl = f(Q.mo, "price_limit"), f(Q.mo, "slippage_limit")
    for v, c in ((limit_is("price_limit", "Gte"), ONE - lt0(price_of(PAIR) - num(f(pl, "@Gte.0")))), (limit_is("price_limit", "Lte"), ONE - lt0(num(f(pl, "@Lte.0")) - price_of(PAIR))),
                 (limit_is("slippage_limit", "Percent"), ONE - lt0(pscale(value * num(f(sl, "@Percent.0")), Fr(1, 100)) - fee)),
                 (limit_is("slippage_limit", "Absolute"), ONE - lt0(num(f(sl, "@Absolute.0")) - fee))):
        yield ONE - mulx(v, ONE - c)
    yield ONE - lt0(num(MAX) - fee)


def general(pairs, strict, *more):
    """carried out when the specification's conditions, the prices and what the operation names are in order"""
    def check(ck, x, sp, what):
        ks = list(dict.fromkeys(list(x.positions) + list(pairs) + list(x.collaterals.values())))
        ps = list(dict.fromkeys(list(x.positions) + list(pairs)))
        L = [c for n, c in sp.asserts] + configured(x.r, ps) + priced(x, ks, ps if strict else ())
        for m in more:
            L += m(sp) if callable(m) else [m]
        ck.accepts(x.r, what, *L)
    return check


def executable(sp):
    """the request exists, is active, still valid and was submitted before"""
    q = Q
    return [is_some(q.opt), ONE - lt0(q.index - fn_(ACC, "valid_requests_start", "u64"), True), lt0(q.submission - now(), True), is_st(q.status, "ACTIVE")]


def c41(ck):
    tasks = []

    def add(*a):
        tasks.append(lambda c: a[0](c, *a[1:]))
    # orders
    plan = dict(DECIDED, **{"no margin": False, "no cap": False, "short skew": None, "pool value below one": None})
    ordered = general((PAIR,), True, executable, limits_of_order)
    for sh in SHAPES:
        for rf in ("none", "some") if sh.name in ("opens a long", "closes exactly a short") else ("none",):
            add(lambda c, sh, rf: run_order(c, sh, plan, ordered, rf), sh, rf)
    for n in OPENING:
        for other, toks, coll in (("long", (TA,), {TA: FA}), ("short", (TA,), {TA: FA}), (None, (TA, TB), {TA: FA, TB: FB})):
            def go(c, n, other, toks, coll):
                sh = shape(n)
                kw, fs = order_kw(other, toks, coll)
                if other:
                    kw["positions"] = ((PAIR,) if sh.held else ()) + (OTHER,)
                run_order(c, sh, dict(DECIDED, **VALUED, **{"no margin": False, "no cap": False, "pool value below one": None}), ordered, "none", True, fs, **kw)
            add(go, n, other, toks, coll)
    # liquidation and deleveraging
    base = tm.eqv(f(bucket_in("liquidate"), "$res"), BASE)
    for h in HOLDINGS:
        for rf in ("none", "some"):
            if rf == "none" and (h.positions or h.collaterals) or h.name == "long":
                add(lambda c, h, rf: liquidation(c, h, {} if len(h.collaterals) < 2 else FLAT, general((), True, base), rf), h, rf)
    hs = [Holding(s, {K0: s}) for s in ("long", "short")]
    hs.append(Holding("long and another position", {K0: "long", PB: "short"}, (TA,), {TA: FA}))
    for h in hs:
        add(lambda c, h: explore(c, lambda l, fs: adl_scene(c, h, l, fs, "none", True), dict(PLAN, **FLAT), lambda sp: sp.adl(K0), general((K0,), True), h.name), h)
    # liquidity
    pay, lp = arg("payment"), arg("lp_token")
    add(lambda c: explore(c, lambda l, fs: pool_scene(c, "add_liquidity", l, fs), {}, lambda sp: sp.add_liquidity(fn_(pay, "$amt")),
                          general((), False, tm.eqv(f(pay, "$res"), BASE)), "adding liquidity"))
    add(lambda c: explore(c, lambda l, fs: pool_scene(c, "remove_liquidity", l, fs), {"no cap": False}, lambda sp: sp.remove_liquidity(fn_(lp, "$amt")),
                          general((), False, tm.eqv(f(lp, "$res"), LP)), "removing liquidity"))
    # debt
    for nm, tokens, colls in (("one collateral", (RES,), {RES: FA}), ("two collaterals", (RES, TB), {RES: FA, TB: FB}),
                              ("priced by the same pair", (RES, TB), {RES: FA, TB: FA})):
        add(lambda c, nm, tokens, colls: explore(c, lambda l, fs: swap_scene(c, l, fs, tokens, colls), {}, lambda sp: sp.swap_debt(RES, fn_(pay, "$amt")),
                                                 general((), False, tm.eqv(f(pay, "$res"), BASE)), "swapping debt, " + nm), nm, tokens, colls)
    # collateral
    for a in out_tasks():
        add(lambda c, nm, claims, held, colls, ps, rf: explore(c, lambda l, fs: out_scene(c, l, fs, claims, held, colls, ps, rf), VALUED,
            lambda sp: sp.remove_collateral(claims), general((), True, executable), "removing " + titled(nm, ps, rf)), *a)
    for a in in_tasks():
        add(lambda c, nm, toks, held, colls, oath, ps, rf: explore(c, lambda l, fs: add_scene(c, l, fs, toks, held, colls, oath, ps, rf), VALUED,
            lambda sp: deposited(sp, toks, oath), general((), True, *oathed(oath)), "adding " + titled(nm, ps, rf, oath)), *a)
    # pairs brought up to date, however soon after each other
    calm = {k: v for k, v in CALM.items() if k != "price fell"}
    for nm, pairs, idle in (("one pair", (PA,), False), ("one pair, no time passed", (PA,), True), ("two pairs", (PA, PB), False), ("the same pair twice", (PA, PA), False),
                            ("no pair", (), False)):
        add(lambda c, nm, pairs, idle: explore(c, lambda l, fs: update_scene(c, l, fs, pairs, "both", idle), {"no time passed": True} if idle else calm,
            lambda sp: [sp.update_pair(k) for k in dict.fromkeys(pairs)], general(pairs, True), "updating " + nm), nm, pairs, idle)
    add(requests_accepted)
    add(others_accepted)
    ck.par(tasks)


def oathed(oath):
    return [tm.eqv(f(f(arg("fee_oath"), "?"), "$res"), OATH)] if oath == "some" else []



# ---- operations without positions or prices
def room(x, n):
    """n more requests fit"""
    return ONE - lt0(fn_(x.cfg, "exchange.active_requests_max", "u64") - fn_(ACC, "active_requests_len", "u64") - n, True)


def fits(*names):
    """seconds that fit the stored form"""
    return [lt0(num(arg(n), "u64") - (1 << 63), True) for n in names]


def short(name, most):
    return ONE - lt0(C(most) - coll_len(arg(name)), True)


def sized(x):
    amt = num(arg("amount"))
    return [ONE - lt0(tm.pabs(amt) - fn_(at(f(x.cfg, "pair_configs"), arg("pair_id")), "trade_size_min"))]


def one_of(v, *ns):
    return sum((eq0(v - n, True) for n in ns), ZERO)


def requests_accepted(ck):
    pair = arg("pair_id")
    q = Q
    x = Flow(ck, "process_request", (q.expired,), "expired", price_updates="none")
    with x.given():
        ck.accepts(x.r, x.r.id, is_some(q.opt), ONE - lt0(q.index - fn_(ACC, "valid_requests_start", "u64"), True), lt0(q.submission - now(), True),
                   is_st(q.status, *OPEN), *configured(x.r))
    x = Flow(ck, "remove_collateral_request", fee_oath="none")
    with x.given():
        ck.accepts(x.r, x.r.id, *configured(x.r) + fits("expiry_seconds") + [short("claims", 10), room(x, 1)])
    x = Flow(ck, "margin_order_request", fee_oath="none")
    with x.given():
        ck.accepts(x.r, x.r.id, one_of(num(arg("status"), "u8"), 0, 1), short("activate_requests", 2), short("cancel_requests", 2), room(x, 1),
                   *configured(x.r, (pair,)) + sized(x) + fits("delay_seconds", "expiry_seconds"))
    for tp in ("none", "some"):
        for sl in ("none", "some"):
            x = Flow(ck, "margin_order_tp_sl_request", fee_oath="none", price_tp=tp, price_sl=sl)
            with x.given():
                ck.accepts(x.r, x.r.id, room(x, 1 + (tp == "some") + (sl == "some")),
                           *configured(x.r, (pair,)) + sized(x) + fits("delay_seconds", "expiry_seconds"))
    X, Y = num(arg("some_index"), "u64"), num(arg("other_index"), "u64")
    for l in ((), (X,), (X, Y), (X, X)):
        x = Flow(ck, "cancel_requests", (ONE - eq0(X - Y, True),) if Y in l else (), "cancels %s" % [show(z) for z in l], ((arg("indexes"), vec(*l)),), fee_oath="none")
        with x.given():
            L = configured(x.r)
            for z in l:
                L += [is_some(get_req(z)), is_some(RET("MarginAccount", "get_request", acct(), (z,))), is_st(f(get_req(z), "status"), *OPEN)]
            ck.accepts(x.r, x.r.id, *L)
    for n in (1, 2, 3):
        for m, kw in (("set_level_%d_auth" % n, {}), ("add_auth_rule", {"level": C(n)})):
            x = Flow(ck, m, fee_oath="none", **kw)
            with x.given():
                ck.accepts(x.r, x.r.id, *configured(x.r))
    x = Flow(ck, "create_recovery_key", fee_oath="none")
    with x.given():
        ck.accepts(x.r, x.r.id, *configured(x.r))


def in_tenth(*vs):
    return [c for v in vs for c in (ONE - lt0(v), ONE - lt0(C(Fr(1, 10)) - v))]


def others_accepted(ck):
    """payouts and referral operations"""
    def holds(x, amount):
        return ONE - lt0(fn_(x.pool, "base_tokens_amount") - amount)

    def payout(m, amount, *more):
        x = Scene(ck, m, "")
        with x.given():
            ck.accepts(x.r, x.r.id, holds(x, amount(x)), *configured(x.r) + [c(x) for c in more])
    pay = arg("payment")
    payout("swap_protocol_fee", lambda x: num(RET("FeeDistributor", "get_protocol_virtual_balance", FD)), lambda x: tm.eqv(f(pay, "$res"), PROTOCOL),
           lambda x: ONE - lt0(fn_(pay, "$amt") - fn_(x.cfg, "exchange.protocol_burn_amount")))
    payout("collect_treasury", lambda x: num(RET("FeeDistributor", "get_treasury_virtual_balance", FD)))
    payout("collect_fee_delegator", lambda x: num(RET("FeeDelegator", "get_virtual_balance", FL)))
    payout("collect_referral_rewards", lambda x: fn_(proven(ck, x.r)[1], "balance"))
    fr, fb, mx = num(arg("fee_referral")), num(arg("fee_rebate")), num(arg("max_referrals"), "u64")
    r = ck.entry("exchange", "mint_referral")
    ck.accepts(r, r.id, *in_tenth(fr, fb))
    for fs in ((), ("fee_referral",), ("fee_rebate",), ("max_referrals",), ("fee_referral", "fee_rebate", "max_referrals")):
        r = ck.entry("exchange", "update_referral", **{n: "some" if n in fs else "none" for n in ("fee_referral", "fee_rebate", "max_referrals")})
        ck.accepts(r, r.id, *in_tenth(*[num(f(arg(n), "?")) for n in fs if n != "max_referrals"]))

    def known(r, toks):
        cfg = [e for e, p in r.calls("Config", "get_info")]
        return [b_or(tm.eqv(t, BASE), map_has(f(cfg[0].d["ret"], "collaterals"), t)) for t in toks] if toks else []
    T1, T2 = arg("token_one"), arg("token_two")
    for toks in ([], [T1], [T1, T2]):
        bs = vec(*[bucket(t, num(arg("amount_" + name(t)))) for t in toks])
        lab = "%d token(s)" % len(toks)

        def scene(m, vals, **kw):
            r = ck.entry("exchange", m, label=lab, vals=vals, **kw)
            return r, configured(r)
        cnt = num(arg("allocation_count"), "u64")
        r, c = scene("mint_referral_with_allocation", ((arg("allocation_tokens"), bs),))
        with given(r.known, r.vals):
            ck.accepts(r, r.id, ONE - lt0(mx - cnt, True), *c + in_tenth(fr, fb) + known(r, toks))
        cnt = num(arg("count"), "u64")
        r, c = scene("add_referral_allocation", ((arg("tokens"), bs),))
        with given(r.known, r.vals):
            d = record(arg("referral_id"))
            ck.accepts(r, r.id, ONE - lt0(fn_(d, "max_referrals", "u64") - fn_(d, "referrals", "u64") - cnt, True), *c + known(r, toks))
        H = arg("hash_a")
        cnt = num(arg("count_a"), "u64")
        r, c = scene("create_referral_codes", ((arg("tokens"), bs), (arg("referral_hashes"), mapof((H, eng.tup(arg("claims"), cnt))))))
        with given(r.known, r.vals):
            d = proven(ck, r)[1]
            ck.accepts(r, r.id, ONE - lt0(fn_(d, "max_referrals", "u64") - fn_(d, "referrals", "u64") - cnt, True), *c + known(r, toks))
    r = ck.entry("exchange", "create_referral_codes_from_allocation")
    ck.accepts(r, r.id)
    # a new account
    b0 = bucket(BASE, num(arg("base_0")))
    for lab, toks in (("no tokens", []), ("base tokens", [b0]), ("collateral", [bucket(T1, num(arg("amount_1")))])):
        vals = ((arg("tokens"), vec(*toks)),)
        for i in range(2):
            r = ck.entry("exchange", "create_account", label=lab, fee_oath="none", referral_code="none", vals=vals, given=differ(T1, BASE))
            vals += tuple((f(v, n), mapof()) for v in {e.d["ret"] for e, p in r.calls("MarginAccount", "get_info")} for n in ("positions", "collateral_balances"))
        with given(r.known, r.vals):
            L = configured(r) + known(r, [T1] if lab == "collateral" else [])
            L += [ONE - lt0(fn_(e.d["ret"], "exchange.collaterals_max", "u64") - len(toks), True) for e, p in r.calls("Config", "get_info")]
            for e, p in r.ev("assert"):     # the exchange's own metadata
                for t in subterms(e.d["cond"]):
                    if t.op == "call" and t.a[0] == "get_metadata":
                        L += [A(mk("is", t, "Ok")), is_some(f(t, "@Ok.0"))]
            ck.accepts(r, r.id, *L)
