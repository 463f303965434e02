"""C11 funding and pair updates, C34/C38 keeper rewards."""
from rules.assets import *
from rules.trading import liquidation, adl_scene, bucket_in, K0, FLAT

OIL, OIS = "oi_long", "oi_short"


def pp(k, n):
    return pp_field(pool_position(k), n)


def elapsed(k):
    return lt0(pp(k, "last_update") - now(), True)


def pair_facts(k, sides="both", time=True):
    fs = (gt0(price_of(k)), gt0(pp(k, "last_price")))
    for n, s in ((OIL, "long"), (OIS, "short")):
        fs += (gt0(pp(k, n)),) if sides in ("both", s) else (eq0(pp(k, n)),)
    return fs + ((elapsed(k),) if time else ())


def update_scene(ck, lab, facts, pairs, sides, idle=False):
    fs = ()
    for k in dict.fromkeys(pairs):
        fs += pair_facts(k, sides, not idle)
    return Scene(ck, "update_pairs", lab, pairs=tuple(dict.fromkeys(pairs)), facts=fs + tuple(facts), vals=((arg("pair_ids"), vec(*pairs)),),
                 price_updates="none", idle=idle)


def c11(ck):
    def check(ck, x, sp, what):
        pool_positions(ck, x, sp, what)
        totals(ck, x, sp, what, vb=False)
        effects(ck, x.r, [("MarginPool", "update")], ["mint"])

    def go(ck, nm, pairs, sides, idle, plan):
        def run(sp):
            sp.due = [sp.update_pair(k) for k in dict.fromkeys(pairs)]
        explore(ck, lambda l, fs: update_scene(ck, l, fs, pairs, sides, idle), plan, run, check, nm, 1500)
    one = [("one pair%s%s" % (", price fell" if a else "", ", short skew" if b else ""), (PA,), "both", False, {"price fell": a, "short skew": b})
           for a in (False, True) for b in (False, True)]
    ck.par([lambda c, a=a: go(c, *a) for a in one + [
        ("only longs", (PA,), "long", False, {"one side empty": True}),
        ("only shorts", (PA,), "short", False, {"one side empty": True}),
        ("no open interest", (PA,), "none", False, {"one side empty": True}),
        ("no time passed", (PA,), "both", True, {"no time passed": True}),
        ("two pairs", (PA, PB), "both", False, dict(CALM, **{"price fell": False})),
        ("the same pair twice", (PA, PA), "both", False, CALM),
        ("no pair", (), "both", False, {})]])
    settled(ck)


CALM = {"no time passed": False, "price fell": False, "short skew": False, "rate above max": False, "rate below min": False,
        "delta negative": False, "rate in range above": False, "rate in range below": False, "clamped above": False,
        "clamped below": False, "shorts pay": False}


def settled(ck):
    """an operation on a position first brings the pair up to date and settles the position's funding"""
    def check(ck, x, sp, what):
        totals(ck, x, sp, what, ("unrealized_pool_funding", "virtual_balance"))
        acc_positions(ck, x, sp, what, ("funding_index",))
        pool_positions(ck, x, sp, what, ("funding_long_index", "funding_short_index", "funding_2_rate", "last_price", "last_update"))

    def order(c, sh, rf, idle):
        fs = () if idle else pair_facts(PAIR)
        plan = dict(DECIDED, **({"short skew": False} if idle else CALM))
        run_order(c, sh, plan, check, rf, idle, fs)

    def liq(c, h, idle):
        fs = () if idle else sum((pair_facts(k) for k in h.positions), ())
        plan = dict(PLAN, **dict(FLAT, **({} if idle else CALM)))
        explore(c, lambda lab, g: h.scene(c, "liquidate", lab, (ONE - lt0(fn_(bucket_in("liquidate"), "$amt")),) + fs + tuple(g), "none", idle=idle),
                plan, lambda sp: sp.liquidate(fn_(bucket_in("liquidate"), "$amt")), check, h.name + ("" if idle else ", after some time"))

    def adl(c, h, idle):
        fs = () if idle else pair_facts(K0)
        explore(c, lambda lab, g: adl_scene(c, h, lab, fs + tuple(g), "none", idle), dict(PLAN, **({} if idle else dict(CALM, **FLAT))),
                lambda sp: sp.adl(K0), check, h.name + ("" if idle else ", after some time"))
    ck.par([lambda c, sh=sh, rf=rf, i=i: order(c, sh, rf, i) for sh in SHAPES for rf in ("none", "some") for i in (True, False)] +
           [lambda c, h=h, i=i: liq(c, h, i) for h in (Holding("liquidating a long", {PA: "long"}), Holding("liquidating a short", {PA: "short"})) for i in (True, False)] +
           [lambda c, h=h, i=i: adl(c, h, i) for h in (Holding("deleveraging a long", {K0: "long"}), Holding("deleveraging a short", {K0: "short"})) for i in (True, False)])


def minted(r):
    return [(e, p) for e, p in r.ev("mint") if e.d["res"] is KEEPER]


def c34(ck):
    """keepers are paid the configured reward for useful work, and nothing else mints the reward"""
    for m, out in (("process_request", None), ("liquidate", "1"), ("auto_deleverage", None)):
        r = ck.entry("exchange", m, label="reward", price_updates="none")
        w = minted(r)
        if ck.ob("%s: the reward is minted once, on every successful path" % r.id, len(w) == 1 and w[0][0].g is ONE and not w[0][1], r):
            ck.same("%s: the configured amount" % r.id, num(w[0][0].d["amount"]), fn_(r.src("Config", "get_info"), "exchange.keeper_reward"), w[0][0])
            b = f(r.ret, out) if out else r.ret
            is_bucket(ck, "%s: handed to the keeper" % r.id, b, KEEPER, fn_(r.src("Config", "get_info"), "exchange.keeper_reward"), r)
    for m in MUTATORS:
        if m in ("process_request", "liquidate", "auto_deleverage", "update_pairs"):
            continue
        r = ck.entry("exchange", m)
        ck.ob("%s mints no keeper reward" % m, not minted(r), r)

    def check(ck, x, sp, what):
        w = minted(x.r)
        n = tm._sum([boolp(d) for d in sp.due]) if sp.due else ZERO
        if ck.ob("%s: one mint" % what, len(w) <= 1 and all(not p for e, p in w), x.r):
            got = mulx(w[0][0].g, num(w[0][0].d["amount"])) if w else ZERO
            ck.same("%s: one reward for every pair that was due" % what, got, n, w[0][0] if w else x.r)
            is_bucket(ck, "%s: handed to the keeper" % what, f(x.r.ret, "0"), KEEPER, n, x.r)
        e = entries(f(x.r.ret, "1"))
        if ck.ob("%s: one answer per pair" % what, e is not None and len(e) == len(sp.due) and all(g is ONE for y, g in e), x.r, show(f(x.r.ret, "1"), 6)[:400]):
            for (y, g), d in zip(e, sp.due):
                ck.ob("%s: tells whether the pair was due" % what, boolv(y) is d, x.r, show(y, 6)[:300])

    def go(ck, nm, pairs, idle, plan):
        def run(sp):
            sp.due = [sp.update_pair(k) for k in dict.fromkeys(pairs)]
        explore(ck, lambda l, fs: update_scene(ck, l, fs, pairs, "both", idle), plan, run, check, nm)
    calm = dict(CALM)
    del calm["price fell"]
    ck.par([lambda c, a=a: go(c, *a) for a in [
        ("one pair", (PA,), False, calm), ("one pair, no time passed", (PA,), True, {"no time passed": True}), ("two pairs", (PA, PB), False, calm),
        ("the same pair twice", (PA, PA), False, calm), ("pairs repeated", (PA, PB, PA), False, calm), ("no pair", (), False, calm)]])


def boolp(d):
    return d
