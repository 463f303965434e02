"""C39: what the read-only operations report is what is stored."""
from rules.assets import *
from rules import assets
from rules.storage import mapof, differ
from rules.requests import vec, entries
from rules import model
from rules.configs import EXCHANGE, PAIRC, COLL, INTS, val
import rt

PA, PB, PC = arg("pair_a"), arg("pair_b"), arg("pair_c")
TA, TB = arg("token_a"), arg("token_b")
POSITION = ("oi_long", "oi_short", "cost", "skew_abs_snap", "pnl_snap", "funding_2_rate", "funding_long_index", "funding_short_index", "last_price")


def reads_only(ck, r):
    """the operation changes nothing and publishes nothing"""
    bad = [(e, p) for e, p in r.evs if e.kind in EFFECTS or e.kind == "emit" or e.kind == "call" and not e.d["pure"]]
    ck.ob("%s: changes nothing" % r.id, not bad, bad[0][0] if bad else r, str([e.kind for e, p in bad][:4]))
    ck.no_unknown(r)


def elements(ck, rule, v, n, r):
    """exactly n reported entries, all of them present"""
    l = entries(v)
    ok = l is not None and len(l) == n and all(g is ONE for x, g in l)
    ck.ob("%s: one entry for each" % rule, ok, r, show(v, 5)[:500])
    return [x for x, g in l] if ok else None


def each(ck, rule, v, keyed, key, r):
    """the reported entries by what they are about: {key: entry}"""
    l = elements(ck, rule, v, len(keyed), r)
    if l is None:
        return {}
    got = {f(x, key): x for x in l}
    ck.ob("%s: about exactly the stored ones" % rule, set(got) == set(keyed), r, str([show(k, 3) for k in got]))
    return {k: x for k, x in got.items() if k in keyed}


def config_of(ck, rule, got, stored, kind, spec, r, pair=False):
    """the reported settings are the stored ones, in their full form"""
    x = ck.entry("config", "decompress", impl=kind, label="of " + rule, vals=((arg("self"), stored),))
    with given(x.known, x.vals):
        want = {n: val(x.ret, n) for n in spec}
        pid = f(x.ret, "pair_id") if pair else None
    for n in spec:
        ck.same("%s: %s" % (rule, n), val(got, n), want[n], r)
    if pair:
        ck.ob("%s: pair" % rule, f(got, "pair_id") is pid, r, show(f(got, "pair_id"), 4))


def record(ck, rule, d, i, kr, r):
    ck.same("%s: number" % rule, num(f(d, "index"), "u64"), i, r)
    for n in ("submission", "expiry"):
        ck.same("%s: %s" % (rule, n), fn_(d, n, "i64"), fn_(kr, n, "i64"), r)
    ck.same("%s: status" % rule, fn_(d, "status", "u8"), fn_(kr, "status", "u8"), r)
    ck.ob("%s: content" % rule, f(d, "request") is mk("dec", REQ_T, f(kr, "request")), r, show(f(d, "request"), 5))


HIST = (num(arg("history_n"), "u64"), arg("history_start"))


def account_scene(ck, lab, positions=(), sides=(), tokens=(), collaterals=(), active=(), history=(), facts=()):
    keys = [i for i, k in active]
    facts = tuple(facts) + tuple(lt0(a - b, True) for a, b in zip(keys, keys[1:])) + differ(*keys)
    for k, s in zip(positions, sides):
        a = fn_(arg("position_" + name(k)), "amount")
        facts += {"long": (gt0(a),), "short": (lt0(a),), "flat": ()}[s]

    def extra(s):
        with given(rt.literals(facts)):
            m = mapof(*active)
        return [(f(s.pos[k], "amount"), ZERO) for k, d in zip(positions, sides) if d == "flat"] + [(RET("MarginAccount", "get_active_requests", acct()), m),
                (RET("MarginAccount", "get_requests_tail", acct(), HIST), vec(*[rt.tup(i, k) for i, k in history]))]
    return Scene(ck, "get_account_details", lab, positions=positions, tokens=tokens, collaterals=dict(collaterals), facts=facts, extra=extra)


def account_view(ck, lab, positions=(), sides=(), tokens=(), collaterals=(), active=(), history=()):
    x = account_scene(ck, lab, positions, sides, tokens, collaterals, active, history)
    r = x.r
    with given(r.known, r.vals):
        reads_only(ck, r)
        for n, i in (("virtual_balance", None), ("valid_requests_start", "u64"), ("requests_len", "u64")):
            ck.same("%s: %s as stored" % (r.id, n), fn_(r.ret, n, i), fn_(ACC, n, i), r)
        # positions
        got = each(ck, "%s: positions" % r.id, f(r.ret, "positions"), positions, "pair_id", r)
        for k, side in zip(positions, sides):
            if k not in got:
                continue
            g, p, pp, cfg = got[k], x.pos[k], x.poolpos.get(k), at(f(x.cfg, "pair_configs"), k)
            a = fn_(p, "amount")
            size = {"long": a, "short": -a, "flat": ZERO}[side]
            owed = {"long": a * (fn_(pp, "funding_long_index") - fn_(p, "funding_index")),
                    "short": -a * (fn_(pp, "funding_short_index") - fn_(p, "funding_index")), "flat": ZERO}[side]
            w = "%s: %s position" % (r.id, side)
            ck.same("%s: amount" % w, fn_(g, "amount"), a, r)
            ck.same("%s: cost" % w, fn_(g, "cost"), fn_(p, "cost"), r)
            ck.same("%s: funding owed" % w, fn_(g, "funding"), owed, r)
            ck.same("%s: initial margin" % w, fn_(g, "margin_initial"), size * fn_(cfg, "margin_initial"), r)
            ck.same("%s: maintenance margin" % w, fn_(g, "margin_maintenance"), size * fn_(cfg, "margin_maintenance"), r)
        # collateral
        got = each(ck, "%s: collateral" % r.id, f(r.ret, "collaterals"), [k for k, p in collaterals], "resource", r)
        for k, pair in collaterals:
            if k not in got:
                continue
            g, have = got[k], x.bal.get(k, ZERO)
            w = "%s: collateral %s" % (r.id, "held" if k in x.bal else "not held")
            ck.ob("%s: price pair" % w, f(g, "pair_id") is pair, r, show(f(g, "pair_id"), 4))
            ck.same("%s: amount" % w, fn_(g, "amount"), have, r)
            ck.same("%s: discount" % w, fn_(g, "discount"), fn_(x.cc[k], "discount"), r)
            ck.same("%s: margin" % w, fn_(g, "margin"), have * fn_(x.cc[k], "margin"), r)
        # requests
        for n, want in (("active_requests", list(active)[::-1]), ("requests_history", list(history))):
            l = elements(ck, "%s: %s" % (r.id, n), f(r.ret, n), len(want), r)
            for d, (i, kr) in zip(l or [], want):
                record(ck, "%s: %s, in order" % (r.id, n), d, i, kr, r)
        # referral
        ref = f(ACC, "referral_id")
        got = f(r.ret, "referral")
        ck.same("%s: a referral if the account has one" % r.id, is_some(got), is_some(ref), r)
        for g, want in ((f(got, "?.0"), mk("nfgid", REFERRAL, f(ref, "?"))), (f(got, "?.1"), assets.record(f(ref, "?")))):
            ck.ob("%s: its referral and the referral's record" % r.id, same_under(g, want, is_some(ref)), r, show(g, 5))


def pool_view(ck):
    for lab, fs in (("pool tokens exist, pool worth at least one", 1), ("pool tokens exist, pool worth less than one", 0), ("no pool token", 2)):
        def mkfacts(x=None):
            P0 = RET("MarginPool", "get_info", mk("checked", "MarginPool", K("_POOL_COMPONENT")))
            pv = fn_(P0, "base_tokens_amount") + fn_(P0, "virtual_balance") + fn_(P0, "unrealized_pool_funding") + fn_(P0, "pnl_snap")
            s = model.lp_supply()
            return {1: (ONE - lt0(pv - ONE), ONE - eq0(s)), 0: (lt0(pv - ONE), ONE - eq0(s)), 2: (ONE - lt0(pv - ONE), eq0(s))}[fs], pv, s
        facts, pv, s = mkfacts()
        r = ck.entry("exchange", "get_pool_details", label=lab, given=facts)
        with given(r.known, r.vals):
            reads_only(ck, r)
            P0 = r.src("MarginPool", "get_info")
            for n in ("base_tokens_amount", "virtual_balance", "unrealized_pool_funding", "pnl_snap"):
                ck.same("%s: %s as stored" % (r.id, n), fn_(r.ret, n), fn_(P0, n), r)
            v = ONE if fs == 0 else pv
            ck.same("%s: skew ratio" % r.id, fn_(r.ret, "skew_ratio"), pdiv(fn_(P0, "skew_abs_snap"), v), r)
            ck.same("%s: skew ratio cap as configured" % r.id, fn_(r.ret, "skew_ratio_cap"), fn_(r.src("Config", "get_info"), "exchange.skew_ratio_cap"), r)
            ck.same("%s: pool token supply" % r.id, fn_(r.ret, "lp_supply"), s, r)
            ck.same("%s: pool token price" % r.id, fn_(r.ret, "lp_price"), ONE if fs == 2 else pdiv(v, s), r)


def pair_view(ck):
    for lab, ks in (("no pair", []), ("one pair", [PA]), ("two pairs", [PA, PB]), ("the same pair twice", [PA, PA])):
        r = ck.entry("exchange", "get_pair_details", label=lab, given=differ(PA, PB), vals=((arg("pair_ids"), vec(*ks)),))
        with given(r.known, r.vals):
            reads_only(ck, r)
            l = elements(ck, "%s" % r.id, r.ret, len(ks), r)
            for d, k in zip(l or [], ks):
                pool, cfg = r.src("MarginPool", "get_info"), r.src("Config", "get_info")
                ck.ob("%s: in the asked order" % r.id, f(d, "pair_id") is k, r, show(f(d, "pair_id"), 3))
                for n in POSITION:
                    ck.same("%s: pool position %s as stored" % (r.id, n), fn_(d, "pool_position." + n), fn_(map_at(f(pool, "positions"), k), n), r)
                config_of(ck, "%s: settings" % r.id, f(d, "pair_config"), at(f(cfg, "pair_configs"), k), "PairConfigCompressed", PAIRC, r, pair=True)


def config_views(ck):
    r = ck.entry("exchange", "get_exchange_config")
    reads_only(ck, r)
    config_of(ck, "%s: settings" % r.id, r.ret, f(r.src("Config", "get_info"), "exchange"), "ExchangeConfigCompressed", EXCHANGE, r)
    stored = RET("Config", "get_pair_configs", mk("checked", "Config", K("_CONFIG_COMPONENT")), (num(arg("n"), "u64"), arg("start")))
    cs = [arg("stored_config_a"), arg("stored_config_b")]
    for k in (0, 1, 2):
        for m in ("get_pairs", "get_pair_configs"):
            r = ck.entry("exchange", m, label="%d stored" % k, vals=((stored, vec(*cs[:k])),))
            with given(r.known, r.vals):
                reads_only(ck, r)
                l = elements(ck, r.id, r.ret, k, r)
                for d, c in zip(l or [], cs):
                    if m == "get_pairs":
                        ck.ob("%s: the pairs, in stored order" % r.id, d is f(c, "pair_id"), r, show(d, 4))
                    else:
                        config_of(ck, "%s: settings" % r.id, d, c, "PairConfigCompressed", PAIRC, r, pair=True)
    r = ck.entry("exchange", "get_pair_configs_len")
    reads_only(ck, r)
    ck.same("%s: as stored" % r.id, num(r.ret, "u64"), num(r.src("Config", "get_pair_configs_len"), "u64"), r)
    cc = f(RET("Config", "get_info", mk("checked", "Config", K("_CONFIG_COMPONENT"))), "collaterals")
    for k in (0, 1, 2):
        st = [(TA, cs[0]), (TB, cs[1])][:k]
        with given(rt.literals(differ(TA, TB))):
            m0 = mapof(*st)
        for m in ("get_collateral_configs", "get_collaterals"):
            r = ck.entry("exchange", m, label="%d stored" % k, given=differ(TA, TB), vals=((cc, m0),))
            with given(r.known, r.vals):
                reads_only(ck, r)
                if m == "get_collaterals":
                    l = elements(ck, r.id, r.ret, k, r)
                    ck.ob("%s: the configured tokens" % r.id, l is not None and set(l) == {t for t, c in st}, r, show(r.ret, 4))
                    continue
                base, w = tm.map_chain(r.ret)
                ck.ob("%s: the configured tokens" % r.id, base.op == "mapnew" and {t for t, v, p in w if p is ONE} == {t for t, c in st} and len(w) == len(st), r, show(r.ret, 4))
                for t, c in st:
                    config_of(ck, "%s: settings" % r.id, map_at(r.ret, t), c, "CollateralConfigCompressed", COLL, r, pair=True)


def other_views(ck):
    r = ck.entry("exchange", "get_permissions")
    reads_only(ck, r)
    e = r.call("PermissionRegistry", "get_permissions")
    ck.ob("%s: what the index holds for the rule" % r.id, r.ret is e.d["ret"] and e.d["args"][0] is arg("access_rule"), r, show(r.ret, 4))
    for m, bp, g in (("get_protocol_balance", "FeeDistributor", "get_protocol_virtual_balance"), ("get_treasury_balance", "FeeDistributor", "get_treasury_virtual_balance")):
        r = ck.entry("exchange", m)
        reads_only(ck, r)
        ck.same("%s: as stored" % r.id, num(r.ret), num(r.src(bp, g)), r)
    r = ck.entry("exchange", "get_referral_details")
    reads_only(ck, r)
    rid = arg("referral_id")
    e = r.call("ReferralGenerator", "get_allocations")
    ck.ob("%s: the referral's allocations" % r.id, f(r.ret, "allocations") is e.d["ret"] and e.d["args"][0] is rid, r, show(f(r.ret, "allocations"), 4))
    ck.ob("%s: the referral's record" % r.id, f(r.ret, "referral") is assets.record(rid), r, show(f(r.ret, "referral"), 4))


KA, KB = (num(arg("number_a"), "u64"), arg("request_a")), (num(arg("number_b"), "u64"), arg("request_b"))


def c39(ck):
    """the details the exchange reports"""
    tasks = [lambda c: account_view(c, "nothing held")]
    for s in ("long", "short", "flat"):
        tasks.append(lambda c, s=s: account_view(c, "one %s position" % s, (PA,), (s,)))
    for s in (("long", "short"), ("long", "long")):
        tasks.append(lambda c, s=s: account_view(c, "two positions, %s and %s" % s, (PA, PB), s))
    tasks += [lambda c: account_view(c, "one collateral", tokens=(TA,), collaterals=[(TA, PC)]),
              lambda c: account_view(c, "a collateral held and one not", tokens=(TA,), collaterals=[(TA, PC), (TB, PB)]),
              lambda c: account_view(c, "two collaterals", tokens=(TA, TB), collaterals=[(TA, PC), (TB, PB)]),
              lambda c: account_view(c, "a holding no longer configured", tokens=(TA, TB), collaterals=[(TB, PB)]),
              lambda c: account_view(c, "one active request", active=(KA,), history=(KA,)),
              lambda c: account_view(c, "two active requests", active=(KA, KB), history=(KB, KA)),
              pool_view, pair_view, config_views, other_views]
    ck.par(tasks)
