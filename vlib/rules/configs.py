"""C28: configuration is validated, stored and read back field by field."""
import itertools
from rules.assets import *
from rules.storage import unchanged, effect_free, changes, pages

D = Fr
POS = "positive"
EXCHANGE = {"positions_max": (1, None), "collaterals_max": (None, None), "active_requests_max": (None, None), "skew_ratio_cap": (0, None),
            "adl_offset": (0, None), "adl_a": (0, None), "adl_b": (0, None), "fee_liquidity_add": (0, None), "fee_liquidity_remove": (0, None),
            "fee_share_protocol": (0, D(3, 10)), "fee_share_treasury": (0, D(15, 100)), "fee_share_referral": (0, 1), "fee_max": (0, None),
            "protocol_burn_amount": (1000, None), "reward_keeper": (0, None)}
PAIRC = {"price_age_max": (1, 65535), "oi_max": (0, None), "trade_size_min": (0, None), "update_price_delta_ratio": (POS, None),
         "update_period_seconds": (1, 65535), "margin_initial": (0, 1), "margin_maintenance": (0, 1), "funding_1": (0, 2), "funding_2": (0, 4),
         "funding_2_delta": (0, 10000), "funding_2_decay": (0, None), "funding_pool_0": (0, 1), "funding_pool_1": (0, 2),
         "funding_share": (0, D(1, 10)), "fee_0": (0, D(15, 1000)), "fee_1": (0, D(1, 1000000))}
COLL = {"price_age_max": (1, 65535), "discount": (D(8, 10), 1), "margin": (0, D(1, 10))}
INTS = {"positions_max": "u16", "collaterals_max": "u16", "active_requests_max": "u16", "price_age_max": "i64", "update_period_seconds": "i64"}
PLAIN = ("pair_id",)


def val(c, n):
    return fn_(c, n, INTS.get(n))


def limits(c, spec):
    """[(text, condition)] a valid configuration satisfies"""
    out = []
    for n, (lo, hi) in spec.items():
        v, i = val(c, n), n in INTS
        if lo == POS:
            out.append(("%s is positive" % n, gt0(v)))
        elif lo is not None:
            out.append(("%s is at least %s" % (n, lo), ONE - lt0(v - lo, i)))
        if hi is not None:
            out.append(("%s is at most %s" % (n, hi), ONE - lt0(hi - v, i)))
    if "margin_maintenance" in spec:
        out.append(("maintenance margin at most the initial margin", ONE - lt0(val(c, "margin_initial") - val(c, "margin_maintenance"))))
    return out


def accepted(cs, spec):
    """the bounds of the whole-number settings, as facts (the stored form holds them in two bytes)"""
    return tuple(cond for k, c in cs for t, cond in limits(c, {n: b for n, b in spec.items() if n in INTS}))


def readback(ck, r, kind, stored, c, spec, what, pair=None):
    """reading the stored form gives the configuration c"""
    x = ck.entry("config", "decompress", impl=kind, label="of the stored form, " + what, given=tuple(cond for t, cond in limits(c, {n: b for n, b in spec.items() if n in INTS and b[0] is not None})),
                 vals=((arg("self"), stored),))
    with given(x.known, x.vals):
        for n in spec:
            ck.same("%s: %s is read back as given" % (what, n), val(x.ret, n), val(c, n), x)
        if pair is not None:
            ck.ob("%s: pair is read back as given" % what, f(x.ret, "pair_id") is pair, x, show(f(x.ret, "pair_id"), 4))


def c28(ck):
    C0 = arg("config")
    r = ck.entry("config", "update_exchange_config")
    for t, cond in limits(C0, EXCHANGE):
        ck.must(r, "exchange: %s" % t, cond)
    ck.accepts(r, "exchange")
    effect_free(ck, r)
    changes(ck, r.id, r, {"exchange": f(r.self1, "exchange")})
    readback(ck, r, "ExchangeConfigCompressed", f(r.self1, "exchange"), C0, EXCHANGE, "exchange")
    # pairs
    A_, B_ = arg("config_a"), arg("config_b")
    ka, kb = arg("key_a"), arg("key_b")
    for lab, cs in (("no pair", []), ("one pair", [(ka, A_)]), ("two pairs", [(ka, A_), (kb, B_)]), ("the same pair twice", [(ka, A_), (ka, B_)])):
        r = ck.entry("config", "update_pair_configs", label=lab, given=differ(ka, kb),
                     vals=((arg("configs"), vec(*[c for k, c in cs])),) + tuple((f(c, "pair_id"), k) for k, c in cs))
        with given(r.known, r.vals):
            for k, c in cs:
                for t, cond in limits(c, PAIRC):
                    ck.must(r, "%s: %s" % (lab, t), cond)
            ck.accepts(r, lab)
        final = dict(cs)
        kvs0 = f(arg("self"), "pairs.kvs")
        for was in itertools.product((ZERO, ONE), repeat=len(final)):
            have = tuple(map_has(kvs0, k) if w is ONE else ONE - map_has(kvs0, k) for k, w in zip(final, was))
            listed = "%s, valid, %s" % (lab, "/".join("known" if w is ONE else "new" for w in was) or "none")
            r = ck.entry("config", "update_pair_configs", label=listed, given=differ(ka, kb) + accepted(cs, PAIRC) + have,
                         vals=((arg("configs"), vec(*[c for k, c in cs])),) + tuple((f(c, "pair_id"), k) for k, c in cs))
            with given(r.known, r.vals):
                effect_free(ck, r)
                S = r.res_self0
                old, new = f(S, "pairs.kvs"), f(r.self1, "pairs.kvs")
                lst0 = f(S, "pairs.list")
                ptr = fn_(lst0, "pointer", "u64")
                fresh = [k for k, w in zip(final, was) if w is ZERO]
                want = {"kvs": ("map", [(k, map_at(new, k), ONE) for k in final])}
                if fresh:
                    want["list"] = {"kvs": ("map", [(lift(ptr + i), k, ONE) for i, k in enumerate(fresh)]), "pointer": ptr + len(fresh)}
                changes(ck, r.id, r, {"pairs": want})
                ck.ob("%s: exactly the named pairs are written" % listed, {k for k, v, p in tm.map_chain(new)[1]} == set(final), r, show(new, 5)[:400])
                sts = {k: map_at(new, k) for k in final}
            for k, c in final.items():
                readback(ck, r, "PairConfigCompressed", sts[k], c, PAIRC, "%s, %s" % (listed, name(c)), k)
    # the paged list
    for r, idx in pages(ck, "config", "get_pair_configs", f(arg("self"), "pairs.list.pointer"), f(arg("self"), "pairs.list.kvs")):
        with given(r.known, r.vals):
            unchanged(ck, r)
            e = entries(r.ret)
            want = [map_at(f(r.res_self0, "pairs.kvs"), map_at(f(r.res_self0, "pairs.list.kvs"), tm.C(i))) for i in idx]
            ck.ob("%s: exactly the pairs of the page, in order of first configuration" % r.id, e is not None and len(e) == len(want) and
                  all(g is ONE and x is w for (x, g), w in zip(e, want)), r, show(r.ret, 6)[:400])
    # collaterals
    ra, rb = arg("resource_a"), arg("resource_b")
    for lab, cs in (("no collateral", []), ("one collateral", [(ra, A_)]), ("two collaterals", [(ra, A_), (rb, B_)]), ("the same collateral twice", [(ra, A_), (ra, B_)])):
        r = ck.entry("config", "update_collateral_configs", label=lab, given=differ(ra, rb), vals=((arg("configs"), vec(*[eng.tup(k, c) for k, c in cs])),))
        with given(r.known, r.vals):
            for k, c in cs:
                for t, cond in limits(c, COLL):
                    ck.must(r, "%s: %s" % (lab, t), cond)
            ck.accepts(r, lab)
        r = ck.entry("config", "update_collateral_configs", label=lab + ", valid", given=differ(ra, rb) + accepted(cs, COLL),
                     vals=((arg("configs"), vec(*[eng.tup(k, c) for k, c in cs])),))
        with given(r.known, r.vals):
            effect_free(ck, r)
            changes(ck, r.id, r, {"collaterals": f(r.self1, "collaterals")})
            old, new = f(r.res_self0, "collaterals"), f(r.self1, "collaterals")
            base, w = tm.map_chain(new)
            final = dict(cs)
            ck.ob("%s: exactly the named collaterals are written" % lab, base is old and {k for k, v, p in w} == set(final) and all(p is ONE for k, v, p in w), r,
                  show(new, 5)[:400])
            sts = {k: map_at(new, k) for k in final}
        for k, c in final.items():
            readback(ck, r, "CollateralConfigCompressed", sts[k], c, COLL, "%s, %s" % (lab, name(c)))
    r = ck.entry("config", "remove_collateral_config")
    base, w = tm.map_chain(f(r.self1, "collaterals"))
    ck.ob("removal: exactly the named collateral", base is f(r.res_self0, "collaterals") and [(k, p) for k, v, p in w] == [(arg("resource"), ZERO)], r,
          show(f(r.self1, "collaterals"), 5))
    changes(ck, r.id, r, {"collaterals": f(r.self1, "collaterals")})
    effect_free(ck, r)
    # reads
    r = ck.entry("config", "get_info")
    S = r.res_self0
    unchanged(ck, r)
    ck.ob("read: exchange settings as stored", f(r.ret, "exchange") is f(S, "exchange"), r, show(f(r.ret, "exchange"), 4))
    for n, ks in ((0, []), (1, [ka]), (2, [ka, kb])):
        with given(differ(ka, kb)):
            m = mapof(*[(k, UNIT) for k in ks])
        for meth in ("get_info", "get_pair_configs_by_ids"):
            r = ck.entry("config", meth, label="%d pair(s)" % n, given=differ(ka, kb), vals=((arg("pair_ids"), m),))
            with given(r.known, r.vals):
                unchanged(ck, r)
                out = f(r.ret, "pair_configs") if meth == "get_info" else r.ret
                kvs = f(r.res_self0, "pairs.kvs")
                base, w = tm.map_chain(out)
                ck.ob("%s: exactly the asked pairs" % r.id, base.op == "mapnew" and {k for k, v, p in w} == set(ks) and all(p is ONE for k, v, p in w), r)
                for k in ks:
                    v = map_at(out, k)
                    ck.same("%s: present if configured" % r.id, is_some(v), map_has(kvs, k), r)
                    ck.ob("%s: as stored" % r.id, same_under(f(v, "?"), map_at(kvs, k), map_has(kvs, k)), r, show(v, 5)[:300])
    for lab, cs in (("0", []), ("1", [ra]), ("2", [ra, rb])):
        stored = [(k, arg("stored_" + name(k))) for k in cs]
        with given(differ(ra, rb)):
            m = mapof(*stored)
        r = ck.entry("config", "get_info", label="%s collateral(s)" % lab, given=differ(ra, rb), vals=((f(arg("self"), "collaterals"), m),))
        with given(r.known, r.vals):
            base, w = tm.map_chain(f(r.ret, "collaterals"))
            ck.ob("%s: the configured collaterals as stored" % r.id, base.op == "mapnew" and {k: v for k, v, p in w if p is ONE} == dict(stored) and len(w) == len(stored), r,
                  show(f(r.ret, "collaterals"), 5)[:300])
    # initial state
    r = ck.entry("config", "new")
    owner, rl, st, addr = role_chain(r)
    e = f(st, "exchange")
    x = ck.entry("config", "decompress", impl="ExchangeConfigCompressed", label="initial", vals=((arg("self"), e),))
    for t, cond in limits(x.ret, EXCHANGE):
        ck.ob("initial settings: %s" % t, cond is ONE, x, show(cond, 4))
    for n in ("collaterals",):
        ck.ob("initially no collateral", f(st, n).op == "mapnew", r)
    # the exchange hands the settings through unchanged
    for m, an in (("update_exchange_config", "config"), ("update_pair_configs", "configs"), ("update_collateral_configs", "configs"), ("remove_collateral_config", "resource")):
        r = ck.entry("exchange", m)
        c = [e for e, p in r.calls() if not e.d["pure"]]
        if ck.ob("%s: one call" % m, len(c) == 1 and c[0].g is ONE and (c[0].d["bp"], c[0].d["method"]) == ("Config", m), r):
            ck.ob("%s: with the given settings" % m, c[0].d["args"][0] is arg(an), c[0], show(c[0].d["args"][0], 4))
