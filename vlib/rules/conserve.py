"""C10: whatever one party is credited, others are charged: operations only move value between balances."""
from rules.funding import *
from rules.assets import OATH_OPS, RES, swap_scene, out_scene, add_scene, trading_held

BALANCES = {("MarginAccount", "update"): "virtual_balance", ("MarginPool", "update"): "virtual_balance"}


def moved(ck, r, what):
    """the sum of all changes of balances, with the fee tokens outstanding counted as a debt"""
    total, seen = ZERO, 0
    for e, p in r.evs:
        if e.kind == "call" and not e.d["pure"]:
            bp, m, a = e.d["bp"], e.d["method"], e.d["args"]
            if (bp, m) in BALANCES:
                olds = {x.d["ret"] for x, q in r.calls(bp, "get_info") if x.d["recv"] is e.d["recv"]}
                if not ck.ob("%s: a balance is written from the one state read" % what, len(olds) == 1 and not p, e, "%d reads" % len(olds)):
                    continue
                n = BALANCES[bp, m]
                total = total + mulx(e.g, fn_(a[0], n) - fn_(olds.pop(), n))
                seen += 1
            elif (bp, m) == ("FeeDistributor", "distribute"):
                total = total + mulx(e.g, num(a[0]) + num(a[1]))
                seen += 1
            elif m.startswith("update_") and m.endswith("virtual_balance"):
                olds = [x.d["ret"] for x, q in r.calls(bp, m.replace("update_", "get_", 1))]
                if ck.ob("%s: a balance is written from the one state read" % what, len(set(olds)) == 1 and not p, e, "%s.%s" % (bp, m)):
                    total = total + mulx(e.g, num(a[0]) - num(olds[0]))
                    seen += 1
        elif e.kind == "nfupdate" and show(e.d["field"], 3).strip("'\"") == "balance":
            olds = {t for t in subterms(e.d["value"]) if t.op == "nfdata" and same_record(t, e)}
            if not olds:
                olds = {t for x, q in r.evs for v in values(x) for t in subterms(v) if t.op == "nfdata" and same_record(t, e)}
            if ck.ob("%s: a referral's balance is written from the one state read" % what, len(olds) == 1 and not p, e, str(len(olds))):
                total = total + mulx(e.g, num(e.d["value"]) - fn_(olds.pop(), "balance"))
                seen += 1
        elif e.kind == "burn" and e.d["res"] in (OATH, f(f(arg("fee_oath"), "?"), "$res")):
            ck.ob("%s: burned at most once" % what, not p, e)
            total = total + mulx(e.g, num(e.d["amount"]))
            seen += 1
    return total, seen


def same_record(t, e):
    return e.d["id"] in set(subterms(t)) or e.d["id"] in {mk("nfm", "local_id", y) for y in t.a}


def values(e):
    for v in e.d.values():
        for w in v if isinstance(v, (tuple, list)) else (v,):
            if isinstance(w, (T, P)):
                yield w


def zero(ck, x, what, expect=ZERO, least=1):
    r = x.r if hasattr(x, "r") else x
    with given(r.known, r.vals):
        t, n = moved(ck, r, what)
        ck.same("%s: what is credited is charged" % what, t, expect, r)
        ck.ob("%s: balances move" % what, n >= least, r, "%d balance changes" % n)


def c10(ck):
    tasks = []
    for sh in SHAPES:
        for rf in ("none", "some"):
            for idle in (True, False):
                tasks.append(lambda c, sh=sh, rf=rf, i=idle: zero(c, order_scene(c, sh, sh.name, () if i else pair_facts(PAIR), rf, i), "order that %s%s%s" % (sh.name, "" if i else ", after some time", ", referred" if rf == "some" else "")))
    for h in HOLDINGS[:-2] + PAIRS2:
        for rf in ("none", "some"):
            tasks.append(lambda c, h=h, rf=rf: zero(c, h.scene(c, "liquidate", h.name, (ONE - lt0(fn_(bucket_in("liquidate"), "$amt")),), rf), "liquidating %s%s" % (h.name, ", referred" if rf == "some" else "")))
    for s in ("long", "short"):
        for rf in ("none", "some"):
            for i in (True, False):
                tasks.append(lambda c, s=s, rf=rf, i=i: zero(c, adl_scene(c, Holding(s, {K0: s}), s, () if i else pair_facts(K0), rf, i), "deleveraging a %s%s" % (s, ", referred" if rf == "some" else "")))
    bucket_ok = lambda n: gt0(fn_(arg(n), "$amt"))
    for nm, toks, colls in (("one token", (TA,), {TA: FA}), ("two tokens", (TA, TB), {TA: FA, TB: FB})):
        tasks.append(lambda c, nm=nm, toks=toks, colls=colls: zero(c, swap_scene(c, nm, (tm.eqv(RES, TA),), toks, colls), "debt swap, " + nm))
    for nm, claims, held, colls, ps in (("base", [(BASE, num(arg("claim")))], [], {}, {}), ("a token", [(TA, num(arg("claim")))], [TA], {TA: FA}, {PA: "long"}),
                                        ("base and a token", [(BASE, num(arg("claim"))), (TA, num(arg("other_claim")))], [TA], {TA: FA}, {PA: "short"})):
        tasks.append(lambda c, nm=nm, a=(claims, held, colls, ps): zero(c, out_scene(c, nm, (), *a, "none"), "withdrawing " + nm, least=1 if nm == "a token" else 2))
    for nm, toks in (("base", [("base_in", True)]), ("a token", [("token_in", False)]), ("base twice and a token", [("base_in", True), ("token_in", False), ("more_base", True)])):
        for oath in ("none", "some"):
            tasks.append(lambda c, nm=nm, toks=toks, o=oath: zero(c, add_scene(c, nm, (), toks, (), {arg("token_in_resource"): FA} if len(toks) != 1 or not toks[0][1] else {}, o),
                                                                  "depositing %s%s" % (nm, ", fee oath" if o == "some" else ""), least=1))
    for m in OATH_OPS:
        for h in (HOLDINGS[0], HOLDINGS[3]):
            tasks.append(lambda c, m=m, h=h: zero(c, h.scene(c, m, h.name, (), "none", pairs=(K0,) if m.startswith("margin_order") else (), fee_oath="some", **OATH_OPS[m]),
                                                  "%s with a fee oath, %s" % (m, h.name), least=2))
    for m, n in (("add_liquidity", 2), ("remove_liquidity", 2), ("swap_protocol_fee", 2), ("collect_treasury", 2), ("collect_fee_delegator", 2), ("collect_referral_rewards", 2)):
        tasks.append(lambda c, m=m, n=n: zero(c, Scene(c, m, ""), m, least=n))
    for ps in ((), (PA,), (PA, PB)):
        tasks.append(lambda c, ps=ps: zero(c, Scene(c, "update_pairs", "%d pairs" % len(ps), pairs=ps, vals=((arg("pair_ids"), vec(*ps)),), price_updates="none"),
                                           "updating %d pairs" % len(ps), least=0))
    ck.par(tasks)
    # the delegator issues fee tokens only against what it is owed
    r = ck.entry("fee_delegator", "lock_fee")
    d = fn_(r.self1, "virtual_balance") - fn_(r.res_self0, "virtual_balance")
    ck.same("locking a fee: what is issued is owed", d, tm._sum([mulx(e.g, num(e.d["amount"])) for e, p in r.ev("mint")]), r)
    # nothing else moves a balance
    covered = {"process_request", "liquidate", "auto_deleverage", "swap_debt", "add_collateral", "create_account", "add_liquidity", "remove_liquidity", "swap_protocol_fee",
               "collect_treasury", "collect_fee_delegator", "collect_referral_rewards", "update_pairs"} | set(OATH_OPS)
    for m in MUTATORS:
        if m in covered:
            continue
        r = ck.entry("exchange", m)
        for e, p in r.evs:
            if e.kind == "call" and not e.d["pure"]:
                ck.ob("%s moves no balance" % m, (e.d["bp"], e.d["method"]) not in BALANCES and not e.d["method"].endswith("virtual_balance") and e.d["method"] != "distribute",
                      e, "%s.%s" % (e.d["bp"], e.d["method"]))
            elif e.kind == "nfupdate":
                ck.ob("%s moves no balance" % m, show(e.d["field"], 3).strip("'\"") != "balance", e)
    for oath in ("none", "some"):
        r = ck.entry("exchange", "create_account", label="one deposit", fee_oath=oath, referral_code="none", vals=((arg("tokens"), vec(bucket(BASE, num(arg("base_0"))))),))
        zero(ck, r, "creating an account, fee oath: %s" % oath, least=2 + (oath == "some"))
