"""C22-C27, C10: operations that move tokens, compared with their specification; conservation of virtual balances."""
from rules.trading import *

EFFECTS = ("take", "put", "mint", "burn", "mintnf", "nfupdate", "deposit_account", "setrole", "lockfee")


def effects(ck, r, calls=(), kinds=()):
    """exactly these calls and token effects happen, each once and on every successful path; returns them"""
    out = {}
    want = {tuple(c): 0 for c in calls}
    want.update({k: 0 for k in kinds})
    for e, p in r.evs:
        k = e.kind
        if k == "call":
            if e.d["pure"]:
                continue
            k = (e.d["bp"], e.d["method"])
        elif k not in EFFECTS:
            continue
        if k not in want:
            ck.ob("%s: no other effect" % r.id, False, e, "%s %s" % (k, {n: show(v, 3)[:80] for n, v in e.d.items() if isinstance(v, (T, P))}))
            continue
        want[k] += 1
        out[k] = e
        ck.ob("%s: %s happens on every successful path" % (r.id, name_of(k)), e.g is ONE and not p, e, show(e.g, 5)[:300])
    for k, n in want.items():
        ck.ob("%s: %s happens exactly once" % (r.id, name_of(k)), n == 1, r, "%d times" % n)
        if n != 1:
            raise Missing("%s: %s" % (r.id, name_of(k)))
    return out


def name_of(k):
    return k if isinstance(k, str) else ".".join(k)


def pool_scene(ck, method, lab, facts=(), **kw):
    s = Scene(ck, method, lab, facts=facts, **kw)
    s.referred = False
    return s


def is_bucket(ck, rule, b, res, amt, where):
    ck.ob("%s: token" % rule, f(b, "$res") is res, where, show(f(b, "$res"), 4)[:200])
    ck.same("%s: amount" % rule, fn_(b, "$amt"), num(amt), where)


POOL_FEE = [("MarginPool", "update"), ("FeeDistributor", "distribute")]


def c22(ck):
    """liquidity providers pay and receive exactly their share"""
    def added(ck, x, sp, what):
        r, pay = x.r, arg("payment")
        e = effects(ck, r, POOL_FEE + [("MarginPool", "deposit")], ["mint"])
        base_only(ck, r, pay, what)
        ck.ob("%s: the whole payment goes to the pool" % what, e["MarginPool", "deposit"].d["args"][0] is pay, e["MarginPool", "deposit"])
        m = e["mint"]
        ck.ob("%s: the pool token is issued" % what, m.d["res"] is LP, m, show(m.d["res"], 3))
        ck.same("%s: amount issued" % what, num(m.d["amount"]), sp.lp, m)
        is_bucket(ck, "%s: returned" % what, r.ret, LP, sp.lp, r)
        totals(ck, x, sp, what, vb=False)
        pool_positions(ck, x, sp, what)
        distributed(ck, x, sp, what)

    def removed(ck, x, sp, what):
        r, lp = x.r, arg("lp_token")
        e = effects(ck, r, POOL_FEE + [("MarginPool", "withdraw")], ["burn"])
        ck.must(r, "%s: only the pool token is accepted" % what, tm.eqv(f(lp, "$res"), LP))
        is_bucket(ck, "%s: burned" % what, e["burn"].d["bucket"], f(lp, "$res"), fn_(lp, "$amt"), e["burn"])
        w = e["MarginPool", "withdraw"]
        ck.same("%s: amount withdrawn" % what, num(w.d["args"][0]), sp.payout, w)
        ck.ob("%s: rounded down" % what, w.d["args"][1] is TO_ZERO, w)
        ck.ob("%s: the withdrawn tokens are returned" % what, r.ret is x.r.calls("MarginPool", "withdraw")[0][0].d["ret"] or
              is_same(r.ret, bucket(BASE, rounding(sp.payout, TO_ZERO, BASE))), r, show(r.ret, 6)[:400])
        totals(ck, x, sp, what, vb=False)
        pool_positions(ck, x, sp, what)
        distributed(ck, x, sp, what)
        musts(("the pool has", "pool skew"))(ck, x, sp, what)
    explore(ck, lambda l, fs: pool_scene(ck, "add_liquidity", l, fs), {}, lambda sp: sp.add_liquidity(fn_(arg("payment"), "$amt")), added, "adding")
    explore(ck, lambda l, fs: pool_scene(ck, "remove_liquidity", l, fs), {"no cap": False}, lambda sp: sp.remove_liquidity(fn_(arg("lp_token"), "$amt")), removed, "removing")


def is_same(a, b):
    return a is b or isinstance(a, T) and isinstance(b, T) and f(a, "$res") is f(b, "$res") and cond_eq(fn_(a, "$amt"), fn_(b, "$amt"))


RES = arg("resource")
VB = fn_(ACC, "virtual_balance")


def swap_scene(ck, lab, facts, tokens, colls):
    fs = tuple(gt0(price_of(k)) for k in colls.values()) + tuple(gt0(balance(t)) for t in tokens)
    pay = tuple(x for x in (gt0(fn_(arg(n), "$amt")) for n in ("payment",)))
    return Scene(ck, "swap_debt", lab, tokens=tokens, collaterals=colls, facts=fs + pay + (lt0(VB),) + tuple(facts), price_updates="none")


def c26(ck):
    """debt is swapped for collateral at the discounted price, never for more than either"""
    pay = arg("payment")

    def check(ck, x, sp, what):
        r = x.r
        e = effects(ck, r, [("MarginPool", "update"), ("MarginAccount", "update"), ("MarginPool", "deposit"),
                            ("MarginAccount", "withdraw_collateral_batch")], ["take"])
        base_only(ck, r, pay, what)
        d = e["MarginPool", "deposit"]
        is_bucket(ck, "%s: paid to the pool" % what, d.d["args"][0], f(pay, "$res"), sp.paid, d)
        w = e["MarginAccount", "withdraw_collateral_batch"]
        same_pairs(ck, "%s: collateral withdrawn" % what, w.d["args"][0], {RES: sp.given_out}, w)
        ck.ob("%s: collateral rounded down" % what, w.d["args"][1] is TO_ZERO, w)
        is_bucket(ck, "%s: collateral handed over" % what, f(r.ret, "0"), RES, rounding(sp.given_out, TO_ZERO, RES), r)
        is_bucket(ck, "%s: unused payment returned" % what, f(r.ret, "1"), f(pay, "$res"), fn_(pay, "$amt") - sp.paid, r)
        totals(ck, x, sp, what)
        pool_positions(ck, x, sp, what)
        acc_positions(ck, x, sp, what)
    for nm, tokens, colls in (("one collateral", (RES,), {RES: FA}), ("two collaterals", (RES, TB), {RES: FA, TB: FB}),
                              ("priced by the same pair", (RES, TB), {RES: FA, TB: FA}), ("collateral not held", (), {RES: FA}),
                              ("only another held", (TB,), {RES: FA, TB: FB})):
        explore(ck, lambda l, fs: swap_scene(ck, l, fs + disc(colls), tokens, colls), {}, lambda sp: sp.swap_debt(RES, fn_(pay, "$amt")), check, nm)
    r = ck.entry("exchange", "swap_debt", price_updates="none")
    ck.must(r, "only an account in debt", lt0(VB))
    ck.must(r, "only a configured collateral", map_has(f(r.src("Config", "get_info"), "collaterals"), RES))
    x = Scene(ck, "swap_debt", "collateral of another token", tokens=(TA,), collaterals={TA: FA}, facts=(ONE - tm.eqv(RES, TA),), price_updates="none")
    ck.ob("an unconfigured collateral is refused", x.r.must(ZERO), x.r)


def disc(colls):
    return ()


# ---- collateral in
def sbucket(n, base):
    return bucket(BASE if base else arg(n + "_resource"), num(arg(n + "_amount")))


def moved_vec(v):
    """the buckets of a vec of known content, or None"""
    e = entries(v)
    return None if e is None or any(g is not ONE for x, g in e) else [x for x, g in e]


trading_held = held


def add_scene(ck, lab, facts, toks, held, colls, oath, positions=None, referral="none", **kw):
    bs = [sbucket(n, b) for n, b in toks]
    fs = tuple(ONE - tm.eqv(f(b, "$res"), BASE) for b, (n, base) in zip(bs, toks) if not base)
    fs += tuple(gt0(fn_(b, "$amt")) for b in bs) + tuple(gt0(balance(t)) for t in held)
    ps = dict(positions or {})
    if oath == "some":
        fs += tuple(gt0(price_of(k)) for k in set(colls.values()) | set(ps)) + tuple(trading_held(k, v) for k, v in ps.items())
    extra = [b for n, base in toks if not base for b in [arg(n + "_resource")] if b not in held and b not in colls]
    fs += differ(*(list(dict.fromkeys(list(held) + list(colls) + extra))))
    if oath == "some":
        fs += (REFERRED if referral == "some" else ONE - REFERRED,)
    s = Scene(ck, "add_collateral", lab, positions=tuple(ps), tokens=tuple(held), collaterals=colls, facts=fs + tuple(facts),
              vals=((arg("tokens"), vec(*bs)),), fee_oath=oath, **kw)
    s.referred = bool(ps) and referral == "some"
    return s


def deposited(sp, toks, oath):
    sp.add_collateral([(f(sbucket(n, b), "$res"), fn_(sbucket(n, b), "$amt")) for n, b in toks])
    if oath == "some":
        sp.fee_oath(fn_(f(arg("fee_oath"), "?"), "$amt"))


def titled(nm, ps, rf, oath="none"):
    """name of a task"""
    more = ", with a %s%s" % (ps[PA], " and a referral" if rf == "some" else "") if ps else ""
    return "%s%s%s" % (nm, ", paying a fee" if oath == "some" else "", more)


VALUED = {"valuation fee negative": False, "valuation fee capped": False, "short skew": False}
FIRST, SECOND = arg("first_resource"), arg("second_resource")


def in_tasks():
    """what is deposited, what is held, what is configured, with a fee oath or not, positions, referral"""
    R1, R2 = FIRST, SECOND
    A, B, O = ("first", False), ("second", False), ("base", True)
    lists = [("nothing", [], [], {}), ("base", [O], [], {}), ("base with collateral held", [O], [TA], {TA: FA}),
             ("one token", [A], [], {R1: FA}), ("one token already held", [A], [R1], {R1: FA}),
             ("two tokens", [A, B], [], {R1: FA, R2: FB}), ("base first", [O, A], [TA], {R1: FA, TA: FB}),
             ("base second", [A, O], [], {R1: FA}), ("base twice around a token", [O, A, ("base2", True)], [], {R1: FA}),
             ("unknown token", [A], [], {TA: FA}), ("base and unknown token", [O, A], [], {TA: FA}),
             ("known and unknown token", [A, B], [], {R1: FA}), ("two tokens, one held", [A, B], [R1], {R1: FA, R2: FB})]
    tasks = [(nm, t, h, c, "none", {}, "none") for nm, t, h, c in lists]
    tasks += [(nm, t, h, c, "some", ps, "none") for nm, t, h, c in lists for ps in ({}, {PA: "long"}, {PA: "short"})]
    return tasks + [(nm, t, h, c, "some", {PA: "long"}, "some") for nm, t, h, c in lists]


def c24(ck):
    """deposited collateral is credited in full, only known tokens are taken, and the fee is charged to the account"""
    def check_for(toks, oath):
        def check(ck, x, sp, what):
            r = x.r
            ob = f(arg("fee_oath"), "?")
            bs = [sbucket(n, b) for n, b in toks]
            dep = [e for e, p in r.calls("MarginPool", "deposit")]
            ck.ob("%s: every base token goes to the pool" % what, len(dep) == len(sp.to_pool) and all(e.g is ONE for e in dep) and
                  sorted(e.d["args"][0].id for e in dep) == sorted(bs[i].id for i in sp.to_pool), r, str([show(e.d["args"][0], 4) for e in dep])[:500])
            acc = [e for e, p in r.calls("MarginAccount", "deposit_collateral_batch")]
            got = [b for e in acc for b in (moved_vec(e.d["args"][0]) or [None])] if sp.to_account else []
            ck.ob("%s: every other token goes to the account" % what, all(e.g is ONE for e in acc) and None not in got and
                  sorted(b.id for b in got) == sorted(bs[i].id for i in sp.to_account) or not sp.to_account and
                  all(moved_vec(e.d["args"][0]) == [] for e in acc), r, str([show(b, 4) for b in got if b])[:500])
            allow = {("MarginPool", "deposit"), ("MarginAccount", "deposit_collateral_batch"), ("MarginPool", "update"), ("MarginAccount", "update")}
            for e, p in r.evs:
                if e.kind == "call" and not e.d["pure"]:
                    ck.ob("%s: no other call" % what, (e.d["bp"], e.d["method"]) in allow, e)
                elif e.kind == "burn":
                    ck.ob("%s: only the fee oath is burned" % what, oath == "some" and e.d["bucket"] is ob and e.g is ONE, e)
                elif e.kind in EFFECTS:
                    ck.ob("%s: no other effect" % what, False, e)
            if oath == "some":
                ck.must(r, "%s: the fee oath is genuine" % what, tm.eqv(f(ob, "$res"), OATH))
                ck.ob("%s: the fee oath is burned" % what, len(r.ev("burn")) == 1, r)
            totals(ck, x, sp, what)
            pool_positions(ck, x, sp, what)
            acc_positions(ck, x, sp, what)
            musts(("number of collaterals", "margin is sufficient"))(ck, x, sp, what)
        return check

    def go(ck, nm, toks, held, colls, oath, ps, rf="none"):
        explore(ck, lambda l, fs: add_scene(ck, l, fs, toks, held, colls, oath, ps, rf), VALUED,
                lambda sp: deposited(sp, toks, oath), check_for(toks, oath), titled(nm, ps, rf, oath))
    ck.par([lambda c, a=a: go(c, *a) for a in in_tasks()])


# ---- collateral out
def out_scene(ck, lab, facts, claims, held, colls, ps, referral):
    fs = (ONE - Q.expired, ONE - Q.order)
    rs = list(dict.fromkeys([r for r, a in claims if r is not BASE] + list(held) + list(colls)))
    fs += differ(*rs) + tuple(ONE - tm.eqv(r, BASE) for r in rs)
    fs += tuple(gt0(balance(t)) for t in held) + tuple(gt0(price_of(k)) for k in sorted(set(colls.values()) | set(ps), key=lambda k: k.id))
    fs += tuple(trading_held(k, v) for k, v in ps.items()) + (REFERRED if referral == "some" else ONE - REFERRED,)
    fs += tuple(gt0(a) for r, a in claims)
    cl = vec(*[eng.tup(r, a) for r, a in claims])
    s = Scene(ck, "process_request", lab, positions=tuple(ps), tokens=tuple(held), collaterals=colls, facts=fs + tuple(facts),
              vals=((f(Q.rc, "claims"), cl),), price_updates="none")
    s.referred = bool(ps) and referral == "some"
    return s


def bucket_list(ck, rule, v, want, where):
    """a vec of buckets: exactly {resource: amount}, one bucket each"""
    e = moved_vec(v)
    got = {f(b, "$res"): fn_(b, "$amt") for b in e} if e is not None else None
    ck.ob(rule, got is not None and len(got) == len(e) and got.keys() == want.keys() and all(got[k] is num(want[k]) for k in want), where,
          "found %s" % show(v, 6)[:600])


def out_tasks():
    R1, R2 = FIRST, SECOND
    X, Y, Z = num(arg("first_amount")), num(arg("second_amount")), num(arg("third_amount"))
    lists = [("nothing", [], [], {}), ("base", [(BASE, X)], [TA], {TA: FA}), ("collateral", [(R1, X)], [R1], {R1: FA}),
             ("base and collateral", [(BASE, X), (R1, Y)], [R1, TA], {R1: FA, TA: FB}),
             ("collateral then base", [(R1, X), (BASE, Y)], [R1], {R1: FA}),
             ("two collaterals", [(R1, X), (R2, Y)], [R1, R2], {R1: FA, R2: FB}),
             ("base twice", [(BASE, X), (BASE, Y)], [], {}), ("the same collateral twice", [(R1, X), (R1, Y)], [R1], {R1: FA}),
             ("collateral twice around base", [(R1, X), (BASE, Y), (R1, Z)], [R1], {R1: FA}),
             ("unconfigured collateral", [(R1, X)], [R1, TA], {TA: FA}),
             ("collateral not held", [(R1, X)], [TA], {TA: FA})]
    return [(a, b, c, d, ps, rf) for a, b, c, d in lists for ps in ({}, {PA: "long"}, {PA: "short"}) for rf in (("none", "some") if ps else ("none",))]


def c23(ck):
    """withdrawn collateral is debited in full, goes to the named account, and leaves enough margin"""
    def check(ck, x, sp, what):
        r = x.r
        musts(("no more", "margin is sufficient"))(ck, x, sp, what)
        totals(ck, x, sp, what)
        pool_positions(ck, x, sp, what)
        acc_positions(ck, x, sp, what)
        w = [e for e, p in r.calls("MarginPool", "withdraw")]
        ck.ob("%s: base tokens leave the pool at most once" % what, len(w) == len(sp.out_pool) and all(e.g is ONE for e in w), r)
        for e in w:
            ck.same("%s: base tokens withdrawn" % what, num(e.d["args"][0]), sum(sp.out_pool.values(), ZERO), e)
            ck.ob("%s: base tokens rounded down" % what, e.d["args"][1] is TO_ZERO, e)
        w = [e for e, p in r.calls("MarginAccount", "withdraw_collateral_batch")]
        ok = len(w) == 1 and w[0].g is ONE or not w and not sp.out_account
        if ck.ob("%s: collateral leaves the account at most once" % what, ok, r) and w:
            same_pairs(ck, "%s: collateral withdrawn" % what, w[0].d["args"][0], sp.out_account, w[0])
            ck.ob("%s: collateral rounded down" % what, w[0].d["args"][1] is TO_ZERO, w[0])
        d = r.ev("deposit_account")
        if ck.ob("%s: paid out" % what, len(d) >= 1 and all(e.g is ONE and not p for e, p in d), r):
            want = {k: rounding(a, TO_ZERO, k) for k, a in list(sp.out_pool.items()) + list(sp.out_account.items())}
            for e, p in d:
                ck.ob("%s: paid out to the account named in the request" % what, f(Q.rc, "target_account") in subterms(e.d["account"]), e,
                      show(e.d["account"], 5))
            bs = mk("cat", tuple(sg for e, p in d for sg in (e.d["buckets"].a[0] if e.d["buckets"].op == "cat" else (("all", e.d["buckets"], ONE),))))
            bucket_list(ck, "%s: everything withdrawn is paid out" % what, bs, want, d[0][0])
        allow = {("MarginPool", "withdraw"), ("MarginAccount", "withdraw_collateral_batch"), ("MarginPool", "update"), ("MarginAccount", "update")}
        for e, p in r.evs:
            if e.kind == "call" and not e.d["pure"]:
                ck.ob("%s: no other call" % what, (e.d["bp"], e.d["method"]) in allow, e)
            elif e.kind in EFFECTS:
                ck.ob("%s: no other effect" % what, e.kind == "deposit_account" or e.kind == "mint" and e.d["res"] is KEEPER, e)

    def go(ck, nm, claims, held, colls, ps, rf):
        explore(ck, lambda l, fs: out_scene(ck, l, fs, claims, held, colls, ps, rf), VALUED, lambda sp: sp.remove_collateral(claims), check, titled(nm, ps, rf))
    ck.par([lambda c, a=a: go(c, *a) for a in out_tasks()])


# ---- paying out accrued shares
def pays_out(ck, x, amount, what, token):
    """the pool pays `amount` against its virtual balance"""
    r = x.r
    w = r.call("MarginPool", "withdraw")
    ck.same("%s: amount withdrawn" % what, num(w.d["args"][0]), amount, w)
    ck.ob("%s: rounded down" % what, w.d["args"][1] is TO_ZERO, w)
    ck.must(r, "%s: the pool has the tokens" % what, ONE - lt0(fn_(x.pool, "base_tokens_amount") - amount))
    is_bucket(ck, "%s: paid to the caller" % what, token, BASE, rounding(amount, TO_ZERO, BASE), r)
    for n in TOTALS:
        want = fn_(x.pool, n)
        ck.same("%s: pool %s" % (what, n), fn_(x.pupd, n), want + amount if n == "virtual_balance" else want, r)
    o = arg("any_pair")
    ck.ob("%s: no pool position changes" % what, not map_has(f(x.pupd, "position_updates"), o).d, r)


PAY = [("MarginPool", "update"), ("MarginPool", "withdraw")]
FD, FL = comp("FeeDistributor"), comp("FeeDelegator")


def c27(ck):
    """accrued protocol, treasury and delegated fees are paid once, in full"""
    x = Scene(ck, "swap_protocol_fee", "")
    r, pay = x.r, arg("payment")
    with x.given():
        amount = num(RET("FeeDistributor", "get_protocol_virtual_balance", FD))
        burn = fn_(x.cfg, "exchange.protocol_burn_amount")
        e = effects(ck, r, PAY + [("FeeDistributor", "update_protocol_virtual_balance")], ["burn", "take"])
        ck.must(r, "swap: only the protocol token", tm.eqv(f(pay, "$res"), PROTOCOL))
        ck.must(r, "swap: the payment covers the burn", ONE - lt0(fn_(pay, "$amt") - burn))
        b = tm.round_(burn, TO_INFINITY)
        is_bucket(ck, "swap: burned", e["burn"].d["bucket"], f(pay, "$res"), b, e["burn"])
        is_bucket(ck, "swap: the rest is returned", f(r.ret, "1"), f(pay, "$res"), fn_(pay, "$amt") - b, r)
        z = e["FeeDistributor", "update_protocol_virtual_balance"]
        ck.same("swap: the accrued fee is reset", num(z.d["args"][0]), ZERO, z)
        pays_out(ck, x, amount, "swap", f(r.ret, "0"))
    x = Scene(ck, "collect_treasury", "")
    with x.given():
        e = effects(ck, x.r, PAY + [("FeeDistributor", "update_treasury_virtual_balance")])
        z = e["FeeDistributor", "update_treasury_virtual_balance"]
        ck.same("treasury: the accrued fee is reset", num(z.d["args"][0]), ZERO, z)
        pays_out(ck, x, num(RET("FeeDistributor", "get_treasury_virtual_balance", FD)), "treasury", x.r.ret)
    x = Scene(ck, "collect_fee_delegator", "")
    with x.given():
        e = effects(ck, x.r, PAY + [("FeeDelegator", "update_virtual_balance")])
        z = e["FeeDelegator", "update_virtual_balance"]
        ck.same("fee delegator: the accrued fee is reset", num(z.d["args"][0]), ZERO, z)
        pays_out(ck, x, num(RET("FeeDelegator", "get_virtual_balance", FL)), "fee delegator", x.r.ret)


def proven(ck, r):
    """the referral whose proof was checked; its id and stored data"""
    pc = r.ev("proofcheck")
    ck.ob("%s: the proof is of the referral badge" % r.id, len(pc) == 1 and pc[0][0].g is ONE and pc[0][0].d["res"] is REFERRAL, r)
    nf = mk("nfm", "non_fungible", mk("checkedproof", arg("referral_proof"), REFERRAL))
    i = mk("nfm", "local_id", nf)
    return i, record(i)


def record(i):
    """the referral record stored under an id"""
    return mk("nfdata", mk("nfid", mk("resmgr", REFERRAL), i))


def c30(ck):
    """a referrer collects exactly the recorded reward, once"""
    x = Scene(ck, "collect_referral_rewards", "")
    with x.given():
        r = x.r
        i, data = proven(ck, r)
        e = effects(ck, r, PAY, ["nfupdate"])
        u = e["nfupdate"]
        ck.ob("collect: the reward of the proven referral", is_referral(u.d, i), u)
        ck.ob("collect: the balance field", fieldname(u) == "balance", u, fieldname(u))
        ck.same("collect: the balance is reset", num(u.d["value"]), ZERO, u)
        pays_out(ck, x, fn_(data, "balance"), "collect", r.ret)


def fieldname(e):
    return show(e.d["field"], 3).strip("'\"")


def is_referral(d, i):
    return d["id"] is i and d["rm"] is mk("resmgr", REFERRAL)


def bounded(ck, r, v, lo, hi, what, when=ONE):
    ck.must(r, "%s: not below %s" % (what, lo), ONE - lt0(v - lo), when)
    ck.must(r, "%s: not above %s" % (what, hi), ONE - lt0(hi - v), when)


def counted(ck, r, i, data, count, what):
    """the referral's number of referrals grows by count and stays within its maximum"""
    u = [e for e, p in r.ev("nfupdate")]
    if ck.ob("%s: one update of the referral" % what, len(u) == 1 and u[0].g is ONE, r):
        e = u[0]
        ck.ob("%s: number of referrals of this referral" % what, is_referral(e.d, i) and fieldname(e) == "referrals", e)
        ck.same("%s: grows by the count" % what, num(e.d["value"], "u64"), fn_(data, "referrals", "u64") + count, e)
    ck.must(r, "%s: within the maximum" % what, ONE - lt0(fn_(data, "max_referrals", "u64") - fn_(data, "referrals", "u64") - count, True))


def generator_call(ck, r, method, args, what):
    c = [e for e, p in r.calls() if not e.d["pure"]]
    ok = len(c) == 1 and c[0].g is ONE and (c[0].d["bp"], c[0].d["method"]) == ("ReferralGenerator", method) and c[0].d["recv"] is comp("ReferralGenerator")
    if ck.ob("%s: the generator is called once" % what, ok, r):
        got = [num(a, "u64") if isinstance(w, P) else a for a, w in zip(c[0].d["args"], args)]
        ck.ob("%s: with the caller's data" % what, len(c[0].d["args"]) == len(args) and all(g is w for g, w in zip(got, args)), c[0],
              str([show(g, 4)[:80] for g in got]))
        return c[0]
    raise Missing(what)


def tokens_known(ck, method, what):
    """only base and configured collateral tokens"""
    T1, T2 = arg("token_one"), arg("token_two")
    for n, toks in ((1, [T1]), (2, [T1, T2])):
        bs = [bucket(t, num(arg("amount_" + name(t)))) for t in toks]
        r = ck.entry("exchange", method, label="%d token(s)" % n, vals=((arg("tokens"), vec(*bs)),))
        with given(r.known, r.vals):
            cc = f(r.src("Config", "get_info"), "collaterals")
            for t in toks:
                ck.must(r, "%s: %d token(s): base or configured collateral" % (what, n), b_or(tm.eqv(t, BASE), map_has(cc, t)))


FIELDS = ("name", "description", "key_image_url")


def c30_admin(ck):
    r = ck.entry("exchange", "mint_referral")
    fr, fb, mx = num(arg("fee_referral")), num(arg("fee_rebate")), num(arg("max_referrals"), "u64")
    e = effects(ck, r, (), ["mintnf"])["mintnf"]
    ck.ob("mint: a referral badge", e.d["rm"] is mk("resmgr", REFERRAL), e)
    d = e.d["data"]
    for n in FIELDS:
        ck.ob("mint: %s as given" % n, f(d, n) is arg(n), e, show(f(d, n), 4))
    for n, w in (("fee_referral", fr), ("fee_rebate", fb), ("balance", ZERO), ("total_rewarded", ZERO)):
        ck.same("mint: %s" % n, fn_(d, n), w, e)
    for n, w in (("referrals", ZERO), ("max_referrals", mx)):
        ck.same("mint: %s" % n, fn_(d, n, "u64"), w, e)
    ck.ob("mint: the badge is returned", isinstance(r.ret, T) and r.ret.op == "nfbucket" and r.ret.a[0] is mk("resmgr", REFERRAL) and
          r.ret.a[1] is d, r, show(r.ret, 4))
    bounded(ck, r, fr, 0, Fr(1, 10), "mint: fee share")
    bounded(ck, r, fb, 0, Fr(1, 10), "mint: fee rebate")
    for fs in ((), ("fee_referral",), ("fee_rebate",), ("max_referrals",), ("fee_referral", "fee_rebate", "max_referrals")):
        opt = {n: "some" if n in fs else "none" for n in ("fee_referral", "fee_rebate", "max_referrals")}
        r = ck.entry("exchange", "update_referral", **opt)
        got = {fieldname(e): e for e, p in r.ev("nfupdate")}
        ck.ob("update: exactly the given fields change", set(got) == set(fs) and len(r.ev("nfupdate")) == len(fs), r, str(sorted(got)))
        for e, p in r.evs:
            ck.ob("update: no other effect", e.kind == "nfupdate" or e.kind not in EFFECTS and not (e.kind == "call" and not e.d["pure"]), e)
        for n, e in got.items():
            ty = "u64" if n == "max_referrals" else None
            ck.ob("update: the named referral", is_referral(e.d, arg("referral_id")), e)
            ck.same("update: %s as given" % n, num(e.d["value"], ty), num(f(arg(n), "?"), ty), e)
            if n != "max_referrals":
                bounded(ck, r, num(f(arg(n), "?")), 0, Fr(1, 10), "update: %s" % n)
    # a badge together with its first allocation
    for n, bs in ((0, []), (1, ["token_one"])):
        bs = [bucket(arg(t), num(arg("amount_" + t))) for t in bs]
        r = ck.entry("exchange", "mint_referral_with_allocation", label="%d token(s)" % n, vals=((arg("allocation_tokens"), vec(*bs)),))
        with given(r.known, r.vals):
            fr, fb = num(arg("fee_referral")), num(arg("fee_rebate"))
            got = effects(ck, r, [("ReferralGenerator", "add_allocation")], ["mintnf", "nfupdate"])
            e, u = got["mintnf"], got["nfupdate"]
            ck.ob("mint with allocation: a referral badge", e.d["rm"] is mk("resmgr", REFERRAL), e)
            d = e.d["data"]
            for x in FIELDS:
                ck.ob("mint with allocation: %s as given" % x, f(d, x) is arg(x), e, show(f(d, x), 4))
            for x, w, ty in (("fee_referral", fr, None), ("fee_rebate", fb, None), ("balance", ZERO, None), ("total_rewarded", ZERO, None),
                             ("referrals", ZERO, "u64"), ("max_referrals", mx, "u64")):
                ck.same("mint with allocation: %s" % x, fn_(d, x, ty), w, e)
            bounded(ck, r, fr, 0, Fr(1, 10), "mint with allocation: fee share")
            bounded(ck, r, fb, 0, Fr(1, 10), "mint with allocation: fee rebate")
            badge = f(r.ret, "0")
            ck.ob("mint with allocation: the badge is returned", isinstance(badge, T) and badge.op == "nfbucket" and
                  badge.a[0] is mk("resmgr", REFERRAL) and badge.a[1] is d, r, show(badge, 4))
            cnt = num(arg("allocation_count"), "u64")
            own = mk("nfm", "non_fungible_local_id", badge)
            ck.ob("mint with allocation: the count is recorded on the new badge", is_referral(u.d, own) and fieldname(u) == "referrals", u, show(u.d["id"], 5))
            ck.same("mint with allocation: referrals used", num(u.d["value"], "u64"), cnt, u)
            ck.must(r, "mint with allocation: within the limit of the badge", ONE - lt0(mx - cnt, True))
            c = generator_call(ck, r, "add_allocation", [arg("allocation_tokens"), own, arg("allocation_claims"), cnt], "mint with allocation")
            ret = c.d["ret"]
            ck.ob("mint with allocation: the generator's answer is returned",
                  f(r.ret, "1") is f(ret, "0") and num(f(r.ret, "2"), "u64") is num(f(ret, "1"), "u64"), r)
            cc = f(r.src("Config", "get_info"), "collaterals")
            for t in ([arg("token_one")] if n else []):
                ck.must(r, "mint with allocation: base or configured collateral", b_or(tm.eqv(t, BASE), map_has(cc, t)))
    # allocations and codes
    i = arg("referral_id")
    cnt = num(arg("count"), "u64")
    r = ck.entry("exchange", "add_referral_allocation")
    data = record(i)
    counted(ck, r, i, data, cnt, "allocation")
    c = generator_call(ck, r, "add_allocation", [arg("tokens"), i, arg("claims"), cnt], "allocation")
    ret = c.d["ret"]
    ck.ob("allocation: the generator's answer is returned", f(r.ret, "0") is f(ret, "0") and num(f(r.ret, "1"), "u64") is num(f(ret, "1"), "u64"), r)
    tokens_known(ck, "add_referral_allocation", "allocation")
    r = ck.entry("exchange", "create_referral_codes_from_allocation")
    pi, pd = proven(ck, r)
    generator_call(ck, r, "create_referral_codes_from_allocation", [pi, num(arg("allocation_index"), "u64"), arg("referral_hashes")], "codes from allocation")
    ck.ob("codes from allocation: no other effect", not [e for e, p in r.evs if e.kind in EFFECTS], r)
    tokens_known(ck, "create_referral_codes", "codes")
    HA, HB = arg("hash_a"), arg("hash_b")
    na, nb = num(arg("count_a"), "u64"), num(arg("count_b"), "u64")
    for n, hs in ((0, []), (1, [(HA, na)]), (2, [(HA, na), (HB, nb)])):
        with given(differ(HA, HB)):
            m = mapof(*[(h, eng.tup(arg("claims_of_" + name(h)), c)) for h, c in hs])
        r = ck.entry("exchange", "create_referral_codes", given=differ(HA, HB), label="%d code(s)" % n, vals=((arg("referral_hashes"), m),))
        with given(r.known, r.vals):
            pi, pd = proven(ck, r)
            counted(ck, r, pi, pd, sum((c for h, c in hs), ZERO), "codes: %d code(s)" % n)
            c = generator_call(ck, r, "create_referral_codes", [arg("tokens"), pi, m], "codes: %d code(s)" % n)
            ck.ob("codes: the rest is returned", r.ret is c.d["ret"], r)


# ---- fee oaths
OATH_OPS = {"create_recovery_key": {}, "add_auth_rule": {"level": C(2)}, "set_level_1_auth": {}, "set_level_2_auth": {}, "set_level_3_auth": {},
            "remove_collateral_request": {}, "margin_order_request": {}, "margin_order_tp_sl_request": {}, "cancel_requests": {}}


def c25(ck):
    """using a fee oath charges exactly its amount to the acting account, which must then still be sufficiently funded"""
    ob = f(arg("fee_oath"), "?")

    def check(ck, x, sp, what):
        r = x.r
        ck.must(r, "%s: the fee oath is genuine" % what, tm.eqv(f(ob, "$res"), OATH))
        b = r.ev("burn")
        ck.ob("%s: the fee oath is burned" % what, len(b) == 1 and b[0][0].g is ONE and not b[0][1] and b[0][0].d["bucket"] is ob, r)
        ck.same("%s: the account pays the fee" % what, fn_(x.upd, "virtual_balance"), sp.vb, r)
        musts(("margin is sufficient",))(ck, x, sp, what)
        account_only(ck, r, what)

    def go(ck, m, asm, h, rf):
        explore(ck, lambda l, fs: h.scene(ck, m, l, fs, rf, fee_oath="some", **asm, **({"pairs": (K0,)} if m.startswith("margin_order") else {})), {"valuation fee negative": False, "valuation fee capped": False, "short skew": False},
                lambda sp: sp.fee_oath(fn_(ob, "$amt")), check, "%s, %s%s" % (m, h.name, " with a referral" if rf == "some" else ""))
    tasks = []
    for m, asm in OATH_OPS.items():
        for h in HOLDINGS:
            for rf in ("none", "some") if h.positions else ("none",):
                if rf == "none" or m == "cancel_requests":
                    tasks.append((m, asm, h, rf))
        if m.startswith("margin_order"):
            tasks += [(m, asm, Holding("%s in the pair" % s, {K0: s}), "none") for s in ("long", "short")]
    ck.par([lambda c, a=a: go(c, *a) for a in tasks])
    for m, asm in list(OATH_OPS.items()) + [("add_collateral", {}), ("create_account", {})]:
        r = ck.entry("exchange", m, label="no fee oath", fee_oath="none", **asm)
        ck.ob("%s: nothing is burned" % r.id, not r.ev("burn"), r)
        if m in OATH_OPS:
            u = r.call("MarginAccount", "update")
            ck.same("%s: the account's balance stays" % r.id, fn_(u.d["args"][0], "virtual_balance"), fn_(ACC, "virtual_balance"), u)
            account_only(ck, r, r.id)
    # a new account
    b0 = bucket(BASE, num(arg("base_0")))
    for lab, toks in (("no tokens", []), ("base tokens", [b0])):
        vals = ((arg("tokens"), vec(*toks)),)
        for i in range(2):
            r = ck.entry("exchange", "create_account", label=lab, fee_oath="some", referral_code="none", vals=vals)
            info = {e.d["ret"] for e, p in r.calls("MarginAccount", "get_info")}
            for n in ("positions", "collateral_balances"):
                vals += tuple((f(v, n), mapof()) for v in info)
        with given(r.known, r.vals):
            info = info.pop()
            vb = fn_(info, "virtual_balance") + (fn_(b0, "$amt") if toks else ZERO) - fn_(ob, "$amt")
            ck.must(r, "%s: the fee oath is genuine" % r.id, tm.eqv(f(ob, "$res"), OATH))
            ck.ob("%s: the fee oath is burned" % r.id, [(e.g, e.d["bucket"]) for e, p in r.ev("burn")] == [(ONE, ob)], r)
            u = r.call("MarginAccount", "update")
            ck.same("%s: the account pays the fee" % r.id, fn_(u.d["args"][0], "virtual_balance"), vb, u)
            ck.must(r, "%s: the account is not in debt" % r.id, ONE - lt0(vb))


INERT = {("MarginAccount", "update"), ("PermissionRegistry", "set_permissions")}


def account_only(ck, r, what):
    for e, p in r.evs:
        if e.kind == "call" and not e.d["pure"]:
            ck.ob("%s: no other component is changed" % what, (e.d["bp"], e.d["method"]) in INERT, e, "%s.%s" % (e.d["bp"], e.d["method"]))
        elif e.kind in EFFECTS and e.kind not in ("burn", "setrole"):
            ck.ob("%s: no token is moved" % what, e.kind == "mintnf" and r.b.name == "create_recovery_key", e, e.kind)
