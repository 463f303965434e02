"""C37: the published events report exactly what happened."""
from rules.funding import *
from rules.requests import OPEN, is_st, get_req
from rules.assets import OATH_OPS, RES, swap_scene, out_scene, add_scene, trading_held, sbucket, pool_scene

FEES = ("fee_pool", "fee_protocol", "fee_treasury", "fee_referral")
WORDS = {"pair_id", "account", "resource", "target_account"}


def emitted(r, n):
    return [(e, p) for e, p in r.ev("emit") if e.d["name"] == n]


def once(ck, r, n, what):
    w = emitted(r, n)
    return w[0][0] if ck.ob("%s: %s is published once" % (what, n), len(w) == 1 and w[0][0].g is ONE and not w[0][1], r,
                            "%d times, %s" % (len(w), [show(e.g, 4) for e, p in w])) else None


def reports(ck, e, what, **want):
    v = e.d["event"]
    for n, w in want.items():
        g = f(v, n)
        if isinstance(w, P):
            ck.same("%s: reported %s" % (what, n.replace("_", " ")), num(g), w, e)
        else:
            ck.ob("%s: reported %s" % (what, n.replace("_", " ")), g is w, e, show(g, 6)[:300])


def pairs_list(ck, e, n, want, what):
    """a list of (key, number) in any order"""
    l = entries(f(e.d["event"], n))
    ok = l is not None and all(g is ONE for x, g in l)
    got = {f(x, "0"): fn_(x, "1") for x, g in l} if ok else {}
    ck.ob("%s: reported %s" % (what, n.replace("_", " ")), ok and len(l) == len(want) and got.keys() == want.keys() and
          all(cond_eq(num(got[k]), num(want[k])) for k in want), e, show(f(e.d["event"], n), 6)[:400])


def any_of(gs):
    q = ONE
    for g in gs:
        q = mulx(q, ONE - g)
    return ONE - q


def requests_told(ck, r, what):
    """keepers are told of every request that was added or changed, with its new content"""
    us = [e for e, p in r.calls("MarginAccount", "update")]
    w = emitted(r, "EventRequests")
    if not us:
        ck.ob("%s: no request is published" % what, not w, r)
        return
    if not ck.ob("%s: one account is updated" % what, len(us) == 1, r):
        return
    u = us[0].d["args"][0]
    adds, m = entries(f(u, "request_additions")), f(u, "request_updates")
    base, ws = tm.map_chain(m)
    if not ck.ob("%s: the changed requests are known" % what, adds is not None and base.op == "mapnew", r, show(m, 5)[:300]):
        return
    want, i = [], fn_(ACC, "requests_len", "u64")
    infos = {e.d["ret"] for e, p in r.calls("MarginAccount", "get_info") if e.d["recv"] is us[0].d["recv"]}
    if len(infos) == 1:
        i = fn_(list(infos)[0], "requests_len", "u64")
    for x, g in adds:
        want.append((i, x, g))
        i = i + g
    seen = []
    for k, v, p in ws:
        if not any(cond_eq(num(k, "u64"), num(j, "u64")) for j in seen):
            seen.append(k)
            want.append((num(k, "u64"), map_at(m, k), map_has(m, k)))
    want = [x for x in want if x[2].d]
    if not want:
        ck.ob("%s: no request is published" % what, not w, r)
        return
    if not ck.ob("%s: the requests are published once" % what, len(w) == 1 and not w[0][1], r):
        return
    e = w[0][0]
    ck.ob("%s: published whenever a request changed" % what, cond_eq(e.g, any_of([g for i, x, g in want])), e, show(e.g, 5))
    ck.ob("%s: of the account" % what, f(e.d["event"], "account") is tm_addr(us[0].d["recv"]), e, show(f(e.d["event"], "account"), 5))
    l = entries(f(e.d["event"], "requests"))
    if ck.ob("%s: as many requests as changed" % what, l is not None and len(l) == len(want), e, show(f(e.d["event"], "requests"), 5)[:400]):
        for i, x, g in want:
            hit = [1 for y, h in l if cond_eq(h, g) and cond_eq(mulx(g, fn_(y, "0", "u64")), mulx(g, i)) and same_under(f(y, "1"), x, g)]
            ck.ob("%s: request published with its new content" % what, len(hit) == 1, e, "%s: %s" % (show(i, 4), show(x, 5)[:300]))


def tm_addr(c):
    return c.a[1] if isinstance(c, T) and c.op == "checked" else c


def pairs_told(ck, r, what):
    """every changed pool position is published with its new content"""
    us = [e for e, p in r.calls("MarginPool", "update")]
    w = emitted(r, "EventPairUpdates")
    if not us:
        ck.ob("%s: no pair is published" % what, not w, r)
        return
    m = f(us[0].d["args"][0], "position_updates")
    base, ws = tm.map_chain(m)
    if not ck.ob("%s: the changed pairs are known" % what, len(us) == 1 and base.op == "mapnew", r, show(m, 5)[:300]):
        return
    want = {k: map_at(m, k) for k, v, p in ws if map_has(m, k).d}
    if not ck.ob("%s: the changed pairs are certain" % what, all(map_has(m, k) is ONE for k in want), r, show(m, 5)[:300]):
        return
    if not want:
        ck.ob("%s: no pair is published" % what, not w, r)
        return
    e = once(ck, r, "EventPairUpdates", what)
    if e:
        l = entries(f(e.d["event"], "updates"))
        ok = l is not None and len(l) == len(want) and all(g is ONE for x, g in l)
        got = {f(x, "0"): f(x, "1") for x, g in l} if ok else {}
        ck.ob("%s: the changed pairs with their new state" % what, ok and got.keys() == want.keys() and all(same_under(got[k], want[k], ONE) for k in want), e,
              show(f(e.d["event"], "updates"), 6)[:400])


def starts_told(ck, r, what, yes):
    w = emitted(r, "EventValidRequestsStart")
    if not yes:
        ck.ob("%s: no invalidation is published" % what, not w, r)
        return
    e = once(ck, r, "EventValidRequestsStart", what)
    if e:
        u = [x for x, p in r.calls("MarginAccount", "update")]
        reports(ck, e, what, account=arg("account"), valid_requests_start=fn_(u[0].d["args"][0], "valid_requests_start", "u64"))


def exactly(ck, r, what, *names):
    for e, p in r.ev("emit"):
        ck.ob("%s: nothing else is published" % what, e.d["name"] in names + ("EventRequests", "EventPairUpdates", "EventValidRequestsStart"), e, e.d["name"])


def state(ck, r, what, invalidates=False):
    requests_told(ck, r, what)
    pairs_told(ck, r, what)
    starts_told(ck, r, what, invalidates)


def fee_report(sp, referral=True):
    return {n: -x for n, x in zip(FEES if referral else FEES[:3], sp.paid_fees)}


def c37(ck):
    def order(ck, x, sp, what):
        e = once(ck, x.r, "EventMarginOrder", what)
        if e:
            reports(ck, e, what, account=arg("account"), pair_id=PAIR, price_limit=f(Q.mo, "price_limit"), **sp.report, **fee_report(sp))
        exactly(ck, x.r, what, "EventMarginOrder")
        state(ck, x.r, what)

    def liq(ck, x, sp, what):
        e = once(ck, x.r, "EventLiquidate", what)
        if e:
            reports(ck, e, what, account=arg("account"), **sp.report, **fee_report(sp))
            pairs_list(ck, e, "position_prices", {k: price_of(k) for k in x.pos}, what)
            pairs_list(ck, e, "position_amounts", {k: fn_(v, "amount") for k, v in x.pos.items()}, what)
            have = {t: b for t, b in x.bal.items() if t in x.cc}
            pairs_list(ck, e, "collateral_prices", {t: price_of(x.collaterals[t]) for t in have}, what)
            pairs_list(ck, e, "collateral_amounts", have, what)
        exactly(ck, x.r, what, "EventLiquidate")
        state(ck, x.r, what, True)

    def adl(ck, x, sp, what):
        e = once(ck, x.r, "EventAutoDeleverage", what)
        if e:
            reports(ck, e, what, account=arg("account"), pair_id=K0, **sp.report, **fee_report(sp))
        exactly(ck, x.r, what, "EventAutoDeleverage")
        state(ck, x.r, what)

    def liquidity(ck, x, sp, what):
        e = once(ck, x.r, "EventLiquidityChange", what)
        if e:
            reports(ck, e, what, **sp.report, **fee_report(sp, False))
        exactly(ck, x.r, what, "EventLiquidityChange")
        state(ck, x.r, what)

    def debt(ck, x, sp, what):
        e = once(ck, x.r, "EventSwapDebt", what)
        if e:
            reports(ck, e, what, account=arg("account"), resource=RES, price=sp.swap_price, amount=rounding(sp.given_out, TO_ZERO, RES))
        exactly(ck, x.r, what, "EventSwapDebt")
        state(ck, x.r, what)

    def pair_updates(ck, x, what):
        with x.given():
            exactly(ck, x.r, what)
            state(ck, x.r, what)

    def removal(c, nm, claims, held, colls):
        def check(ck, x, sp, what):
            e = once(ck, x.r, "EventRemoveCollateral", what)
            if e:
                reports(ck, e, what, account=arg("account"), target_account=f(Q.rc, "target_account"))
                total = {}
                for r, a in claims:
                    total[r] = total.get(r, ZERO) + a
                pairs_list(ck, e, "amounts", {r: rounding(a, TO_ZERO, r) for r, a in total.items()}, what)
            exactly(ck, x.r, what, "EventRemoveCollateral")
            state(ck, x.r, what)
        explore(c, lambda l, fs: out_scene(c, l, fs, claims, held, colls, {}, "none"), {}, lambda sp: sp.remove_collateral(claims), check, "withdrawing " + nm)

    def deposit(c, nm, toks, held, colls):
        x = add_scene(c, nm, (), toks, held, colls, "none")
        with x.given():
            e = once(c, x.r, "EventAddCollateral", nm)
            if e:
                reports(c, e, nm, account=arg("account"))
                l = entries(f(e.d["event"], "amounts"))
                bs = [sbucket(n, b) for n, b in toks]
                c.ob("%s: reported amounts" % nm, l is not None and len(l) == len(bs) and all(g is ONE and f(y, "0") is f(b, "$res") and cond_eq(fn_(y, "1"), fn_(b, "$amt"))
                                                                                               for (y, g), b in zip(l, bs)), e, show(f(e.d["event"], "amounts"), 6)[:400])
            exactly(c, x.r, nm, "EventAddCollateral")
            state(c, x.r, nm)
    nofee = {"no margin": True, **DECIDED}
    tasks = [lambda c, sh=sh, rf=rf: run_order(c, sh, {**DECIDED, "short skew": False}, order, rf) for sh in SHAPES for rf in ("none", "some")]
    tasks += [lambda c, sh=sh: run_order(c, sh, dict(DECIDED, **CALM), order, "none", False, pair_facts(PAIR)) for sh in SHAPES if sh.held]
    for h in HOLDINGS[:4] + PAIRS2[:1] + HOLDINGS[-2:]:
        for rf in ("none", "some") if h.positions else ("none",):
            tasks.append(lambda c, h=h, rf=rf: explore(c, lambda lab, fs: h.scene(c, "liquidate", lab, (ONE - lt0(fn_(bucket_in("liquidate"), "$amt")),) + tuple(fs), rf, idle=True),
                                                       dict(PLAN, **dict(FLAT, **({} if h.positions or h.collaterals else {"shortfall": True}))),
                                                       lambda sp: sp.liquidate(fn_(bucket_in("liquidate"), "$amt")), liq, h.name + (", referred" if rf == "some" else "")))
    for s in ("long", "short"):
        for i in (True, False):
            h = Holding("deleveraging a %s" % s, {K0: s})
            tasks.append(lambda c, h=h, i=i: explore(c, lambda lab, g: adl_scene(c, h, lab, (() if i else pair_facts(K0)) + tuple(g), "some", i),
                                                     dict(PLAN, **dict(FLAT, **({} if i else CALM))), lambda sp: sp.adl(K0), adl, h.name + ("" if i else ", after some time")))
    tasks.append(lambda c: explore(c, lambda l, fs: pool_scene(c, "add_liquidity", l, fs), {}, lambda sp: sp.add_liquidity(fn_(arg("payment"), "$amt")), liquidity, "adding"))
    tasks.append(lambda c: explore(c, lambda l, fs: pool_scene(c, "remove_liquidity", l, fs), {}, lambda sp: sp.remove_liquidity(fn_(arg("lp_token"), "$amt")), liquidity, "removing"))
    tasks.append(lambda c: explore(c, lambda l, fs: swap_scene(c, l, fs + (tm.eqv(RES, TA), gt0(fn_(arg("collateral_config_token_a"), "discount"))), (TA,), {TA: FA}), {},
                                   lambda sp: sp.swap_debt(TA, fn_(arg("payment"), "$amt")), debt, "debt swap"))
    R1, R2, X, Y = arg("first_resource"), arg("second_resource"), num(arg("first_amount")), num(arg("second_amount"))
    for a in (("nothing", [], [], {}), ("base", [(BASE, X)], [], {}), ("a token", [(R1, X)], [R1], {R1: FA}), ("base and a token", [(BASE, X), (R1, Y)], [R1], {R1: FA}),
              ("one token twice", [(R1, X), (R1, Y)], [R1], {R1: FA}), ("two tokens", [(R1, X), (R2, Y)], [R1, R2], {R1: FA, R2: FB})):
        tasks.append(lambda c, a=a: removal(c, *a))
    for a in (("no deposit", [], [], {}), ("base", [("base", True)], [], {}), ("token and base", [("first", False), ("base", True)], [], {R1: FA}),
              ("two tokens", [("first", False), ("second", False)], [R1], {R1: FA, R2: FB})):
        tasks.append(lambda c, a=a: deposit(c, *a))
    for n, ps in enumerate(((), (PA,), (PA, PB))):
        for i in (True, False):
            tasks.append(lambda c, ps=ps, i=i: pair_updates(c, update_scene(c, "%d pairs" % len(ps), (), ps, "both", i), "updating %d pairs%s" % (len(ps), "" if i else " after some time")))
    ck.par(tasks)
    # requests
    for m in OATH_OPS:
        r = ck.entry("exchange", m, fee_oath="none", label="events", vals=((arg("indexes"), vec(num(arg("i0"), "u64"))),) if m == "cancel_requests" else (), **OATH_OPS[m])
        with given(r.known, r.vals):
            exactly(ck, r, m)
            state(ck, r, m)
    r = ck.entry("exchange", "cancel_requests", fee_oath="none", label="two requests", vals=((arg("indexes"), vec(num(arg("i0"), "u64"), num(arg("i1"), "u64"))),),
                 given=(ONE - tm.eq0(num(arg("i0"), "u64") - num(arg("i1"), "u64"), True),))
    with given(r.known, r.vals):
        state(ck, r, "cancelling two")
    r = ck.entry("exchange", "process_request", label="expired", given=(Q.expired,), price_updates="none")
    with given(r.known, r.vals):
        exactly(ck, r, "expired request")
        state(ck, r, "expired request")
    # linked orders of an executed order
    X, Y = num(arg("other_x"), "u64"), num(arg("other_y"), "u64")
    for a, c in (((), ()), ((X,), (Y,)), ((X, Y), ()), ((), (X, Y)), ((X,), (X,))):
        syms = list(dict.fromkeys(a + c))
        g = (ONE - Q.expired, Q.order) + tuple(ONE - tm.eq0(s - t, True) for i, s in enumerate(syms) for t in syms[:i] + [Q.index])
        what = "order that activates %d and cancels %d orders" % (len(a), len(c)) + (", the same" if a and a == c else "")
        r = ck.entry("exchange", "process_request", label=what, given=g, price_updates="none",
                     vals=((f(Q.mo, "activate_requests"), vec(*a)), (f(Q.mo, "cancel_requests"), vec(*c))))
        with given(r.known, r.vals):
            requests_told(ck, r, what)
            e = once(ck, r, "EventMarginOrder", what)
            if e:
                for n, l, st in (("activated_requests", a, ("DORMANT",)), ("cancelled_requests", c, OPEN)):
                    got = entries(f(e.d["event"], n))
                    ck.ob("%s: reported %s" % (what, n.replace("_", " ")), got is not None and len(got) == len(l) and all(
                        cond_eq(mulx(h, num(y, "u64")), mulx(h, s)) and cond_eq(h, is_st(f(get_req(s), "status"), *st)) for (y, h), s in zip(got, l)), e,
                        show(f(e.d["event"], n), 6)[:300])
    # administration
    for m, ev, fields in (("signal_upgrade", "EventSignalUpgrade", ("new_exchange",)), ("update_exchange_config", "EventExchangeConfigUpdate", ("config",)),
                          ("update_pair_configs", "EventPairConfigUpdates", ("configs",)), ("update_collateral_configs", "EventCollateralConfigUpdates", ("configs",)),
                          ("remove_collateral_config", "EventCollateralConfigRemoval", ("resource",))):
        r = ck.entry("exchange", m)
        e = once(ck, r, ev, m)
        if e:
            reports(ck, e, m, **{n: arg(n) for n in fields})
        exactly(ck, r, m, ev)
    for res in ("none", "some"):
        for code in ("none", "some"):
            r = ck.entry("exchange", "create_account", label="reservation: %s, code: %s" % (res, code), fee_oath="none", referral_code=code, reservation=res,
                         vals=((arg("tokens"), vec()),))
            with given(r.known, r.vals):
                e = once(ck, r, "EventAccountCreation", r.id)
                us = [x for x, p in r.calls("MarginAccount", "update")]
                if e and ck.ob("%s: one account" % r.id, len({x.d["recv"] for x in us}) == 1, r):
                    g = f(e.d["event"], "account")
                    ck.ob("%s: reported account" % r.id, us[0].d["recv"] in (g, mk("addressof", g)) or tm_addr(us[0].d["recv"]) is g or g in set(subterms(us[0].d["recv"])), e, show(g, 6) + " / " + show(us[0].d["recv"], 6))
                    got = f(e.d["event"], "referral_id")
                    new = [x for x, p in r.calls("MarginAccount", "new")]
                    ck.ob("%s: reported referral" % r.id, len(new) == 1 and eqv(got, new[0].d["args"][3]) is ONE and is_some(got) is (ONE if code == "some" else ZERO), e, show(got, 5)[:300])
