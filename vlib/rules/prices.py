"""C21: every price the exchange works with is positive and as fresh as configured."""
import itertools
from rules.funding import *
from rules.assets import OATH_OPS, RES, trading_held

SOME_UPD = f(arg("price_updates"), "?")
BASE_DIFFERS = lambda ts: tuple(ONE - tm.eqv(t, BASE) for t in ts)


def scene(ck, m, lab, facts, pairs, positions, colls, upd, vals=(), **kw):
    if upd is not None:
        kw["price_updates"] = upd
    return Scene(ck, m, lab, positions=tuple(positions), tokens=tuple(colls), collaterals=colls, pairs=pairs,
                 facts=tuple(facts) + tuple(trading_held(k, "long") for k in positions), vals=vals, **kw)


def ages(x, k, strict):
    """the configured age limits of the price of pair k: [(text, age)]"""
    out = [("its pair", fn_(at(f(x.cfg, "pair_configs"), k), "price_age_max", "i64"))] if k in strict else []
    return out + [("collateral %s" % name(t), fn_(x.cc[t], "price_age_max", "i64")) for t, p in x.collaterals.items() if p is k]


def fresh(ck, make, pairs, positions, colls, what, strict):
    """strict: operations that act on positions demand fresh pair prices"""
    x = make(what, ())
    want = list(dict.fromkeys(list(positions) + list(pairs) + list(colls.values())))
    st = [k for k in positions + tuple(pairs)] if strict else []
    with x.given():
        calls = [(e, p) for e, p in x.r.calls("Oracle")]
        if not ck.ob("%s: the oracle is asked once" % what, len(calls) == 1 and calls[0][0].g is ONE and not calls[0][1], x.r):
            return
        e = calls[0][0]
        base, w = tm.map_chain(e.d["args"][0])
        ck.ob("%s: exactly the prices of the pairs and collaterals involved" % what, base.op == "mapnew" and {k for k, v, p in w} == set(want), e,
              show(e.d["args"][0], 6)[:300])
        if e.d["method"].startswith("push"):
            ck.ob("%s: with the caller's update" % what, [a for a in e.d["args"][1:]] == [num(f(SOME_UPD, "2"), "u64") if i == 2 else f(SOME_UPD, str(i)) for i in range(3)], e,
                  str([show(a, 5) for a in e.d["args"][1:]]))
        limits = {k: ages(x, k, st) for k in want}
        # the stored form holds an age in two bytes (C28)
        held = tuple(ONE - lt0(65535 - fn_(x.cc[t], "price_age_max", "i64"), True) for t in colls)
    # every order of the limits that apply to one price
    orders = [weak_orders([a for n, a in l]) for l in limits.values() if len(l) > 1]
    for combo in itertools.product(*orders):
        fs = sum((c[1] for c in combo), held)
        y = make(", ".join([what] + [c[0] for c in combo]), fs)
        with y.given():
            for k, l in limits.items():
                pos = ONE - lt0(fn_(quote(k), "0")) - tm.eq0(fn_(quote(k), "0"))
                ck.must(y.r, "%s: price of %s is positive" % (what, name(k)), pos)
                t = y.time(k)
                least = strictest(l)
                for n, a in l:
                    ck.must(y.r, "%s: price of %s within the age allowed for %s" % (what, name(k), n), ONE - lt0(t + least - now() - 1, True))


def weak_orders(l):
    """every way the limits can be ordered: [(text, facts)]"""
    out = {}
    for ranks in itertools.product(range(len(l)), repeat=len(l)):
        if set(ranks) == set(range(max(ranks) + 1)):
            fs = ()
            for i, a in enumerate(l):
                for j in range(i):
                    d = a - l[j]
                    fs += (tm.eq0(d, True) if ranks[i] == ranks[j] else lt0(d, True) if ranks[i] < ranks[j] else lt0(-d, True),)
            out[ranks] = ("limits ranked " + "".join(map(str, ranks)), fs)
    return list(out.values())


def strictest(l):
    """the limit that is at most every other under the facts of the case"""
    for n, a in l:
        if all(a is b or lt0(b - a, True) is ZERO for m, b in l):
            return a
    return None


def c21(ck):
    tasks = []
    colls = [("no collateral", {}), ("a collateral", {TA: FA}), ("a collateral priced by the pair", {TA: None}),
             ("two collaterals priced alike", {TA: FA, TB: FA}), ("collaterals priced by the pair and alone", {TA: None, TB: FA}),
             ("two collaterals priced by the pair", {TA: None, TB: None})]

    def with_pair(c, k):
        return {t: (k if p is None else p) for t, p in c.items()}
    for nm, c in colls:
        for upd in ("some", "none"):
            if upd == "some" and nm not in ("no collateral", "a collateral priced by the pair"):
                continue
            lab = "%s, %s" % (nm, "prices pushed" if upd == "some" else "stored prices")
            cc = with_pair(c, PAIR)
            ordf = (ONE - Q.expired, Q.order)
            qv = ((f(Q.mo, "activate_requests"), vec()), (f(Q.mo, "cancel_requests"), vec()))
            tasks.append(("process_request", "order, " + lab, (PAIR,), (), cc, True, upd, ordf, qv))
            tasks.append(("process_request", "order, with a position, " + lab, (PAIR,), (PA,), cc, True, upd, ordf, qv))
            ca = with_pair(c, PA)
            tasks.append(("process_request", "withdrawal, " + lab, (), (PA,), ca, True, upd, (ONE - Q.expired, ONE - Q.order), ((f(Q.rc, "claims"), vec()),)))
            tasks.append(("liquidate", lab, (), (PA,), ca, True, upd, (), ()))
            tasks.append(("liquidate", "two positions, " + lab, (), (PA, PB), ca, True, upd, (), ()))
            tasks.append(("auto_deleverage", lab, (K0,), (K0,), with_pair(c, K0), True, upd, (), ()))
            tasks.append(("update_pairs", lab, (PA,), (), ca, True, upd, (), ((arg("pair_ids"), vec(PA)),)))
            if None not in c.values():
                tasks.append(("swap_debt", lab, (), (), c, False, upd, (), ()))
        for m, asm in OATH_OPS.items():
            if sum(p is None for p in c.values()) < 2:
                tasks.append((m, nm, (K0,) if m.startswith("margin_order") else (), (PA,), with_pair(c, PA), False, None, (), ()))

    def go(c, t):
        m, lab, pairs, ps, cc, strict, upd, fs, vals = t
        asm = dict(OATH_OPS.get(m, {}), **({"fee_oath": "some"} if m in OATH_OPS else {}))
        fresh(c, lambda l, g: scene(c, m, l, tuple(fs) + BASE_DIFFERS(cc) + tuple(g), pairs, ps, cc, upd, vals, **asm), pairs, ps, cc, "%s: %s" % (m, lab), strict)
    ck.par([lambda c, t=t: go(c, t) for t in tasks])
