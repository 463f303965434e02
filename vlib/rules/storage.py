"""C08 trading-account store, C09 pool store, C35 fee distributor, C36 shared collections."""
from rules.flow import *
from rules.requests import vec, entries, same_under

STORES = {"Vaults", "List", "HashList"}


def mapof(*kv):
    m = mk("mapnew")
    for k, v in kv:
        m = tm.mapw(m, k, v, ONE)
    return m


def bucket(n):
    return mk("adt", "Bucket", "", ("$res", "$amt"), (arg(n + "_resource"), num(arg(n + "_amount"))))


def differ(*ks):
    return tuple(ONE - tm.eqv(a, b) for i, a in enumerate(ks) for b in ks[:i])


def changes(ck, rule, r, want, old=None, new=None):
    """the component's state after the call is the state before it with exactly the named fields changed.
    want: field -> P / T / ("map", [(key, value, presence)]) / dict (nested)"""
    old = old if old is not None else r.res_self0
    new = new if new is not None else r.self1
    got = dict(new.a[1]) if isinstance(new, T) and new.op == "upd" and new.a[0] is old else ({} if new is old else None)
    if not ck.ob("%s: only named fields change" % rule, got is not None and set(got) <= set(want), r,
                 "state %s" % show(new, 5)[:900]):
        return
    for n, w in want.items():
        o = proj(old, n)
        g = proj(new, n)
        what = "%s: %s" % (rule, n)
        if isinstance(w, dict):
            changes(ck, what, r, w, o, g)
        elif isinstance(w, tuple) and w[0] == "map":
            map_writes(ck, what, r, g, o, w[1])
        elif isinstance(w, P):
            ck.same(what, num(g), w, r)
        else:
            ck.ob(what, g is w or same_under(g, w, ONE), r, "found %s\nrequired %s" % (show(g, 7)[:700], show(w, 7)[:700]))


def map_writes(ck, rule, r, got, old, writes):
    """got is old with exactly `writes` [(key, value, presence)] (distinct keys) applied"""
    base, w = tm.map_chain(got) if isinstance(got, T) else (None, [])
    keys = {k for k, v, p in w}
    ok = base is old and keys <= {k for k, v, p in writes}
    if not ck.ob("%s: exactly the expected entries change" % rule, ok, r, "found %s" % show(got, 8)[:900]):
        return
    for k, v, p in writes:
        ck.same("%s: presence of entry %s" % (rule, show(k, 4)[:80]), map_has(got, k), p, r)
        if p.d:
            g = map_at(got, k)
            ok = same_under(g, v, p)
            ck.ob("%s: value of entry %s" % (rule, show(k, 4)[:80]), ok, r,
                  "found %s\nrequired %s" % (show(g, 8)[:700], show(v, 8)[:700]))


def effect_free(ck, r, also=()):
    """no token or role effect, no call that is not a read"""
    for e, p in r.evs:
        bad = e.kind in ("take", "put", "mint", "burn", "mintnf", "nfupdate", "deposit_account", "authorize", "setrole",
                         "lockfee") or e.kind == "call" and not e.d["pure"]
        if bad and e.kind not in also:
            ck.ob("%s: no other effect" % r.id, False, e)
    ck.ob("%s: effects listed" % r.id, True, r)


def unchanged(ck, r):
    ck.ob("%s: leaves the store unchanged" % r.id, r.self1 is r.res_self0, r, show(r.self1, 5)[:600])
    effect_free(ck, r)


def fields_map(ck, r, ret, want):
    for n, w in want.items():
        g = f(ret, n)
        if isinstance(w, P):
            ck.same("%s: reports %s" % (r.id, n), num(g), w, r)
        else:
            ck.ob("%s: reports %s" % (r.id, n), g is w, r, "found %s required %s" % (show(g, 5)[:400], show(w, 5)[:400]))


# ---------------------------------------------------------------- trading account
def c08(ck):
    me = mk("arg", "self")
    u = arg("update")
    r = ck.entry("account", "get_info")
    S = r.res_self0
    unchanged(ck, r)
    fields_map(ck, r, r.ret, {
        "positions": f(S, "positions"), "collateral_balances": f(S, "collateral_balances"),
        "virtual_balance": fn_(S, "virtual_balance"), "requests_len": fn_(S, "requests.pointer", "u64"),
        "active_requests_len": num(coll_size(f(S, "active_requests")), "u64"),
        "valid_requests_start": fn_(S, "valid_requests_start", "u64"), "referral_id": f(S, "referral_id")})

    # reading requests
    kvs = f(S, "requests.kvs")
    r = ck.entry("account", "get_request")
    unchanged(ck, r)
    stored_opt(ck, r, "returns the request stored under the index", r.ret, kvs, num(arg("index"), "u64"))
    X, Y = num(arg("index_a"), "u64"), num(arg("index_b"), "u64")
    for keys, g in (((), ()), ((X,), ()), ((X, Y), (ONE - eq0(X - Y, True),)), ((X, X), ())):
        r = ck.entry("account", "get_requests_by_indexes", given=g, label="%d indexes" % len(keys), vals=((arg("indexes"), vec(*keys)),))
        with given(r.known, r.vals):
            unchanged(ck, r)
            base, w = tm.map_chain(r.ret)
            ck.ob("%s: one answer per index" % r.id, base.op == "mapnew" and {k for k, v, p in w} == set(keys), r, show(r.ret, 6)[:500])
            for k in keys:
                stored_opt(ck, r, "%s: the request stored under %s" % (r.id, show(k)), map_at(r.ret, k), kvs, k)
    r = ck.entry("account", "get_requests_len")
    unchanged(ck, r)
    ck.same("%s: number of requests" % r.id, num(r.ret, "u64"), fn_(S, "requests.pointer", "u64"), r)
    unchanged(ck, ck.entry("account", "get_active_requests"))
    for m, tail in (("get_requests", False), ("get_requests_tail", True)):
        unchanged(ck, ck.entry("account", m))
        for r, idx in pages(ck, "account", m, f(S, "requests.pointer"), kvs, tail):
            with given(r.known, r.vals):
                unchanged(ck, r)
                e = entries(r.ret)
                if ck.ob("%s: exactly the requests of the page" % r.id, e is not None and len(e) == len(idx) and all(g is ONE for x, g in e), r, show(r.ret, 6)[:400]):
                    for (x, g), i in zip(e, idx):
                        ck.ob("%s: in order, with its index" % r.id, num(f(x, "0"), "u64") is tm.C(i), r, show(x, 5))
                        ck.ob("%s: as stored" % r.id, f(x, "1") is map_at(kvs, tm.C(i)), r, show(x, 6))

    # the update, list by list; everything symbolic elsewhere
    KA, KB, VA_, VB_ = arg("pair_a"), arg("pair_b"), arg("position_a"), arg("position_b")
    vs = fn_(S, "valid_requests_start", "u64")
    nvs = fn_(u, "valid_requests_start", "u64")
    ptr = fn_(S, "requests.pointer", "u64")
    later = lt0(vs - nvs, True)
    act = f(S, "active_requests")
    QA, QB, QC = arg("request_a"), arg("request_b"), arg("request_c")
    I, J = num(arg("index_i"), "u64"), num(arg("index_j"), "u64")
    small = (I, J)
    base_vals = {"position_updates": mapof(), "request_additions": vec(), "request_updates": mapof(),
                 "active_request_additions": vec(), "active_request_removals": vec()}

    def run(label, g=(), **vals):
        v = dict(base_vals)
        v.update(vals)
        r = ck.entry("account", "update", given=tuple(g), label=label, vals=tuple((f(u, n), x) for n, x in sorted(v.items())))
        return r, given(r.known, r.vals)

    def pos(key, val):
        return (key, val, ONE - eq0(fn_(val, "amount")))

    cases = [("empty lists", (), {}, {}),
             ("one position", (), {"position_updates": mapof((KA, VA_))}, {"positions": [pos(KA, VA_)]}),
             ("two positions", differ(KA, KB), {"position_updates": ((KA, VA_), (KB, VB_))},
              {"positions": [pos(KA, VA_), pos(KB, VB_)]}),
             ("one new request", (), {"request_additions": vec(QA)}, {"kvs": [(ptr, QA, ONE)], "n": 1}),
             ("three new requests", (), {"request_additions": vec(QA, QB, QC)},
              {"kvs": [(ptr, QA, ONE), (ptr + 1, QB, ONE), (ptr + 2, QC, ONE)], "n": 3}),
             ("one changed request", (), {"request_updates": mapof((I, QA))}, {"kvs": [(I, QA, ONE)]}),
             ("two changed requests", (ONE - eq0(I - J, True),), {"request_updates": ((I, QA), (J, QB))},
              {"kvs": [(I, QA, ONE), (J, QB, ONE)]}),
             ("one active added", (), {"active_request_additions": vec(I)}, {"act": [(I, UNIT, ONE)]}),
             ("two active added", (ONE - eq0(I - J, True),), {"active_request_additions": vec(I, J)},
              {"act": [(I, UNIT, ONE), (J, UNIT, ONE)]}),
             ("one active removed", (), {"active_request_removals": vec(I)}, {"act": [(I, UNIT, ZERO)]}),
             ("added and removed", (), {"active_request_additions": vec(I), "active_request_removals": vec(I)},
              {"act": [(I, UNIT, ZERO)]}),
             ("one added another removed", (ONE - eq0(I - J, True),),
              {"active_request_additions": vec(I), "active_request_removals": vec(J)},
              {"act": [(I, UNIT, ONE), (J, UNIT, ZERO)]})]
    for label, g, vals, want in cases:
        for lt, fact in (("range start moves", later), ("range start stays", ONE - later)):
            with given(tuple(g)):
                vv = {k: (mapof(*v) if isinstance(v, tuple) else v) for k, v in vals.items()}
            r, ctx = run("%s, %s" % (label, lt), tuple(g) + (fact,), **vv)
            with ctx:
                w = {"virtual_balance": fn_(u, "virtual_balance")}
                if "positions" in want:
                    w["positions"] = ("map", want["positions"])
                if "kvs" in want or "n" in want:
                    w["requests"] = {"kvs": ("map", want["kvs"])}
                    if "n" in want:
                        w["requests"]["pointer"] = ptr + want["n"]
                if lt == "range start moves":
                    w["valid_requests_start"] = nvs
                    k = mk("key", act)
                    kept = [(ONE, k)]
                    w["active_requests"] = None
                elif "act" in want:
                    w["active_requests"] = ("map", want["act"])
                if lt == "range start moves":
                    base, ws = tm.map_chain(f(r.self1, "active_requests"))
                    ok = kept_from(base, act, nvs)
                    ck.ob("%s: active requests before the new start are dropped, the others kept" % r.id, ok, r, show(base, 8)[:600])
                    if ok:
                        map_writes(ck, "%s: active requests" % r.id, r, f(r.self1, "active_requests"), base, want.get("act", []))
                    w["active_requests"] = f(r.self1, "active_requests")
                changes(ck, r.id, r, w)
                effect_free(ck, r)
                if "changed" in label:
                    for i, _, _ in want["kvs"]:
                        ck.must(r, "%s: only existing requests are rewritten" % r.id, lt0(i - ptr, True))
                ck.accepts(r, r.id)

    r = ck.entry("account", "update_referral_id")
    changes(ck, r.id, r, {"referral_id": arg("referral_id")})
    effect_free(ck, r)

    # collateral
    bal, vlt = f(S, "collateral_balances"), f(S, "collateral.vaults")
    for n, same in ((0, 0), (1, 0), (2, 0), (2, 1)):
        bs = [bucket("first"), bucket("second")][:n]
        if same:
            bs[1] = mk("adt", "Bucket", "", ("$res", "$amt"), (f(bs[0], "$res"), f(bs[1], "$amt")))
        g = differ(*[f(b, "$res") for b in bs]) if not same else ()
        r = ck.entry("account", "deposit_collateral_batch", given=g, label="%d bucket(s)%s" % (n, ", same token" if same else ""),
                     vals=((arg("tokens"), vec(*bs)),))
        with given(r.known, r.vals):
            tot = {}
            for b in bs:
                k = f(b, "$res")
                tot[k] = tot.get(k, ZERO) + num(f(b, "$amt"))
            changes(ck, r.id, r, {
                "collateral_balances": ("map", [(k, mulx(map_has(bal, k), num(map_at(bal, k))) + a, ONE) for k, a in tot.items()]),
                "collateral": {"vaults": f(r.self1, "collateral.vaults")}})
            vaults(ck, r, vlt, {k: a for k, a in tot.items()})
            ck.accepts(r, r.id)
    for n in (0, 1, 2):
        ks = [arg("first_resource"), arg("second_resource")][:n]
        am = [num(arg("first_amount")), num(arg("second_amount"))][:n]
        facts = [(f(map_at(vlt, k), "$res"), k) for k in ks]     # a vault is stored under its own resource (shown for `put`)
        g = differ(*ks) + tuple(map_has(bal, k) for k in ks) + tuple(map_has(vlt, k) for k in ks)
        r = ck.entry("account", "withdraw_collateral_batch", given=g, label="%d claim(s)" % n,
                     vals=tuple(facts) + ((arg("claims"), vec(*[tup(k, a) for k, a in zip(ks, am)])),))
        with given(r.known, r.vals):
            strat = arg("withdraw_strategy")
            out = [rounded(a, strat) for a in am]
            left = [num(map_at(bal, k)) - o for k, o in zip(ks, out)]
            changes(ck, r.id, r, {
                "collateral_balances": ("map", [(k, l, ONE - eq0(l)) for k, l in zip(ks, left)]),
                "collateral": {"vaults": f(r.self1, "collateral.vaults")}})
            vaults(ck, r, vlt, {k: -o for k, o in zip(ks, out)})
            ck.accepts(r, r.id)
            e = entries(r.ret)
            ck.ob("%s: returns one bucket per claim" % r.id, e is not None and len(e) == n and all(gg is ONE for _, gg in e), r,
                  show(r.ret, 5)[:500])
            if e is not None and len(e) == n:
                for (b, _), k, o in zip(e, ks, out):
                    ck.ob("%s: bucket of the claimed token" % r.id, f(b, "$res") is k, r, show(b, 5)[:300])
                    ck.same("%s: bucket of the claimed amount" % r.id, num(f(b, "$amt")), o, r)


def rounded(a, strat):
    return tm.round_(a, strat)


def vaults(ck, r, old, delta):
    """each vault's amount changes by exactly delta, and no other vault changes"""
    new = f(r.self1, "collateral.vaults")
    base, w = tm.map_chain(new)
    if not ck.ob("%s: exactly the named vaults change" % r.id, base is old and {k for k, v, p in w} <= set(delta), r, show(new, 6)[:600]):
        return
    for k, d in delta.items():
        was = mulx(map_has(old, k), fn_(map_at(old, k), "$amt"))
        ck.same("%s: vault amount" % r.id, fn_(map_at(new, k), "$amt"), was + d, r)
        ck.same("%s: vault kept" % r.id, map_has(new, k), ONE, r)


def coll_size(v):
    import stdmodel
    return stdmodel.map_len(v) if hasattr(stdmodel, "map_len") else A(mk("len", v))


def stored_opt(ck, r, rule, got, kvs, k):
    ck.same("%s: %s (absent)" % (r.id, rule), is_some(got), map_has(kvs, k), r)
    v = f(got, "?")
    ck.ob("%s: %s (value)" % (r.id, rule), same_under(v, map_at(kvs, k), map_has(kvs, k)), r,
          "found %s" % show(got, 6)[:400])


def kept_from(m, old, start):
    """m is old restricted to the keys >= start"""
    if not (isinstance(m, T) and m.op == "mapcomp" and m.a[0] is old):
        return False
    k = num(m.a[1], "u64")
    want = ONE - lt0(num(mk("key", old), "u64") - start, True)
    return k is num(mk("key", old), "u64") and not (m.a[3] - want).d


# ---------------------------------------------------------------- pool
DEFAULT_POOL_POSITION = {n: ZERO for n in ("oi_long", "oi_short", "cost", "skew_abs_snap", "pnl_snap", "funding_2_rate",
                                           "funding_long_index", "funding_short_index")}
DEFAULT_POOL_POSITION["last_price"] = ONE


def default_position(ck, r, v, stored, key, what):
    has = map_has(stored, key)
    sv = map_at(stored, key)
    for n, d in list(DEFAULT_POOL_POSITION.items()) + [("last_update", now())]:
        ty = "i64" if n == "last_update" else None
        ck.same("%s: %s (%s)" % (r.id, what, n), fn_(v, n, ty), mulx(has, fn_(sv, n, ty)) + mulx(ONE - has, d), r)


def c09(ck):
    r = ck.entry("pool", "new")
    st = role_chain(r)[2]
    for n in ("virtual_balance", "unrealized_pool_funding", "skew_abs_snap", "pnl_snap"):
        ck.ob("a new pool starts at zero: %s" % n, not fn_(st, n).d, r, show(f(st, n), 3))
    ck.ob("a new pool holds no tokens", f(st, "base_tokens.$res") is BASE and not fn_(st, "base_tokens.$amt").d, r, show(f(st, "base_tokens"), 4))
    r = ck.entry("pool", "get_info")
    S = r.res_self0
    unchanged(ck, r)
    fields_map(ck, r, r.ret, {"virtual_balance": fn_(S, "virtual_balance"), "base_tokens_amount": fn_(S, "base_tokens.$amt"),
                              "unrealized_pool_funding": fn_(S, "unrealized_pool_funding"),
                              "skew_abs_snap": fn_(S, "skew_abs_snap"), "pnl_snap": fn_(S, "pnl_snap")})
    st = f(S, "positions")
    r = ck.entry("pool", "get_position")
    unchanged(ck, r)
    default_position(ck, r, r.ret, st, arg("pair_id"), "stored position or a fresh one")
    KA, KB = arg("pair_a"), arg("pair_b")
    for m, sub in (("get_info", "positions"), ("get_positions", None)):
        for ks in ((), (KA,), (KA, KB)):
            with given(differ(*ks)):
                s = mk("mapnew")
                for k in ks:
                    s = tm.mapw(s, k, UNIT, ONE)
            r = ck.entry("pool", m, given=differ(*ks), label="%d pair(s)" % len(ks), vals=((arg("pair_ids"), s),))
            with given(r.known, r.vals):
                v = f(r.ret, sub) if sub else r.ret
                base, w = tm.map_chain(v)
                if ck.ob("%s: exactly the asked pairs" % r.id, base.op == "mapnew" and {k for k, x, p in w} == set(ks), r, show(v, 5)[:500]):
                    for k in ks:
                        ck.same("%s: pair present" % r.id, map_has(v, k), ONE, r)
                        default_position(ck, r, map_at(v, k), st, k, "stored position or a fresh one")
    u = arg("update")
    VA_, VB_ = arg("position_a"), arg("position_b")
    for kv in ((), ((KA, VA_),), ((KA, VA_), (KB, VB_))):
        g = differ(*[k for k, _ in kv])
        with given(g):
            m = mapof(*kv)
        r = ck.entry("pool", "update", given=g, label="%d position(s)" % len(kv), vals=((f(u, "position_updates"), m),))
        with given(r.known, r.vals):
            w = {n: fn_(u, n) for n in ("virtual_balance", "unrealized_pool_funding", "skew_abs_snap", "pnl_snap")}
            w["positions"] = ("map", [(k, v, ONE) for k, v in kv])
            changes(ck, r.id, r, w)
            effect_free(ck, r)
    r = ck.entry("pool", "deposit")
    changes(ck, r.id, r, {"base_tokens": {"$amt": fn_(S, "base_tokens.$amt") + fn_(arg("token"), "$amt")}})
    effect_free(ck, r, ("put",))
    r = ck.entry("pool", "withdraw")
    out = rounded(num(arg("amount")), arg("withdraw_strategy"))
    changes(ck, r.id, r, {"base_tokens": {"$amt": fn_(S, "base_tokens.$amt") - out}})
    effect_free(ck, r, ("take",))
    ck.same("%s: pays out what left the vault" % r.id, fn_(r.ret, "$amt"), out, r)
    ck.ob("%s: pays out the pool's token" % r.id, f(r.ret, "$res") is f(S, "base_tokens.$res"), r, show(r.ret, 5))


# ---------------------------------------------------------------- fee distributor
def c35(ck):
    r = ck.entry("fee_distributor", "distribute")
    S = r.res_self0
    p, t = fn_(S, "protocol_virtual_balance"), fn_(S, "treasury_virtual_balance")
    changes(ck, r.id, r, {"protocol_virtual_balance": p + num(arg("amount_protocol")),
                          "treasury_virtual_balance": t + num(arg("amount_treasury"))})
    effect_free(ck, r)
    for n, q in (("protocol_virtual_balance", p), ("treasury_virtual_balance", t)):
        r = ck.entry("fee_distributor", "get_" + n)
        unchanged(ck, r)
        ck.same("%s: reports the balance" % r.id, num(r.ret), q, r)
        r = ck.entry("fee_distributor", "update_" + n)
        ck.must(r, "%s: never negative" % r.id, ONE - lt0(num(arg(n))))
        ck.accepts(r, r.id)
        changes(ck, r.id, r, {n: num(arg(n))})
        effect_free(ck, r)
    st = role_chain(ck.entry("fee_distributor", "new"))[2]
    for n in ("protocol_virtual_balance", "treasury_virtual_balance"):
        ck.ob("initially nothing is accounted: %s" % n, not fn_(st, n).d, r, show(f(st, n), 3))


PAGES = [(0, 2, None), (3, 0, None), (3, 2, None), (3, 5, None), (3, 2, 0), (3, 1, 1), (3, 2, 1), (3, 2, 2), (3, 9, 1)]


def pages(ck, crate, m, length, kvs, tail=False):
    """(entry, indexes) of a paged read, for pages of a short list: start/end given or not, cut off by the end of the list or not"""
    for ln, n, at in PAGES + ([(3, 2, 7)] if tail else []):
        if tail:
            top = ln if at is None else min(at + 1, ln)
            idx = list(range(top - 1, max(top - n, 0) - 1, -1))
        else:
            a = at or 0
            idx = list(range(a, min(a + n, ln)))
        a = "end" if tail else "start"
        vals = ((length, tm.C(ln)), (arg("n"), tm.C(n))) + (((f(arg(a), "?"), tm.C(at)),) if at is not None else ())
        yield ck.entry(crate, m, label="%d of %d from %s" % (n, ln, at), vals=vals, given=tuple(map_has(kvs, tm.C(i)) for i in range(ln)),
                       **{a: "none" if at is None else "some"}), idx


# ---------------------------------------------------------------- shared collections
def listed(ck, r, rule, got, want):
    """got is exactly the list `want` (terms) under the facts of the case"""
    e = entries(got)
    ck.ob("%s: %s" % (r.id, rule), e is not None and len(e) == len(want) and
          all(g is ONE and (x is w or same_under(x, w, ONE)) for (x, g), w in zip(e, want)), r, "found %s" % show(got, 8)[:600])


def opt_entry(ck, r, kvs, k):
    """an optional reference to the entry stored under k"""
    ck.same("%s: an entry exactly when one is stored" % r.id, is_some(r.ret), map_has(kvs, k), r)
    v = f(r.ret, "?")
    path = v.a[1] if isinstance(v, T) and v.op == "ref" else None
    ok = (path is not None and path[-1] == ("at", k) and path[-2] == "kvs" and len(path) == 2) or v is map_at(kvs, k)
    ck.ob("%s: the entry stored under the key" % r.id, ok, r, show(r.ret, 6)[:400])


def c36(ck):
    def L(m, **kw):
        return ck.entry("common", m, impl="List", **kw)

    r = L("push")
    S = r.res_self0
    kvs, ptr = f(S, "kvs"), fn_(S, "pointer", "u64")
    changes(ck, r.id, r, {"kvs": ("map", [(ptr, arg("item"), ONE)]), "pointer": ptr + 1})
    effect_free(ck, r)
    r = L("update")
    i = num(arg("index"), "u64")
    changes(ck, r.id, r, {"kvs": ("map", [(i, arg("item"), ONE)])})
    ck.must(r, "%s: only within the list" % r.id, lt0(i - ptr, True))
    for m in ("get", "get_mut"):
        r = L(m)
        unchanged(ck, r)
        opt_entry(ck, r, kvs, i)
    r = L("len")
    unchanged(ck, r)
    ck.same("%s: counts the pushed items" % r.id, num(r.ret, "u64"), ptr, r)
    r = L("new")
    ck.same("%s: starts empty" % r.id, fn_(r.ret, "pointer", "u64"), ZERO, r)
    for a, b in ((3, 3), (3, 5), (0, 1), (4, 2)):
        n = max(b - a, 0)
        for miss in range(n + 1):
            g = tuple(map_has(kvs, C(a + k)) for k in range(miss)) + \
                ((ONE - map_has(kvs, C(a + miss)),) if miss < n else ())
            r = L("range", given=g, label="%d..%d, first %d stored" % (a, b, miss), vals=((arg("start"), C(a)), (arg("end"), C(b))))
            with given(r.known, r.vals):
                unchanged(ck, r)
                listed(ck, r, "the stored items of the range in order", r.ret, [map_at(kvs, C(a + k)) for k in range(miss)])

    def H(m, **kw):
        return ck.entry("common", m, impl="HashList", **kw)

    key = arg("key")
    r = H("len")
    S = r.res_self0
    kvs, lk, lp = f(S, "kvs"), f(S, "list.kvs"), fn_(S, "list.pointer", "u64")
    unchanged(ck, r)
    ck.same("%s: counts the distinct keys" % r.id, num(r.ret, "u64"), lp, r)
    has = map_has(kvs, key)
    r = H("insert", given=(has,), label="known key")
    with given(r.known):
        changes(ck, r.id, r, {"kvs": ("map", [(key, arg("value"), ONE)])})
    r = H("insert", given=(ONE - has,), label="new key")
    with given(r.known):
        changes(ck, r.id, r, {"kvs": ("map", [(key, arg("value"), ONE)]),
                              "list": {"kvs": ("map", [(lp, key, ONE)]), "pointer": lp + 1}})
    for m in ("get", "get_mut"):
        r = H(m)
        unchanged(ck, r)
        opt_entry(ck, r, kvs, key)
    r = H("new")
    ck.same("%s: starts empty" % r.id, fn_(r.ret, "list.pointer", "u64"), ZERO, r)
    for a, b in ((3, 3), (3, 5), (0, 1), (4, 2)):
        n = max(b - a, 0)
        for miss in range(n + 1):
            g = tuple(map_has(lk, C(a + k)) for k in range(miss)) + \
                ((ONE - map_has(lk, C(a + miss)),) if miss < n else ())
            r = H("range", given=g, label="%d..%d, first %d stored" % (a, b, miss), vals=((arg("start"), C(a)), (arg("end"), C(b))))
            with given(r.known, r.vals):
                unchanged(ck, r)
                listed(ck, r, "the values of the keys in insertion order", r.ret,
                       [map_at(kvs, map_at(lk, C(a + k))) for k in range(miss)])

    def V(m, **kw):
        return ck.entry("common", m, impl="Vaults", **kw)

    r = V("amount")
    S = r.res_self0
    vl = f(S, "vaults")
    res, amt, strat = arg("resource"), num(arg("amount")), arg("withdraw_strategy")
    unchanged(ck, r)
    ck.same("%s: what the vault holds, or nothing" % r.id, num(r.ret), mulx(map_has(vl, res), fn_(map_at(vl, res), "$amt")), r)
    X, Y = arg("first_resource"), arg("second_resource")
    for ks in ((), (X,), (X, Y)):
        r = V("amounts", given=differ(*ks), label="%d resource(s)" % len(ks), vals=((arg("resources"), vec(*ks)),))
        with given(r.known, r.vals):
            unchanged(ck, r)
            base, w = tm.map_chain(r.ret)
            ck.ob("%s: one amount per resource" % r.id, base.op == "mapnew" and {k for k, v, p in w} == set(ks), r, show(r.ret, 5))
            for k in ks:
                ck.same("%s: amount" % r.id, num(map_at(r.ret, k)), mulx(map_has(vl, k), fn_(map_at(vl, k), "$amt")), r)

    def moved(r, delta, kinds):
        with given(r.known, r.vals):
            base, w = tm.map_chain(f(r.self1, "vaults"))
            ck.ob("%s: exactly the named vaults change" % r.id, base is vl and {k for k, v, p in w} <= set(delta), r,
                  show(f(r.self1, "vaults"), 6)[:500])
            for k, d in delta.items():
                was = mulx(map_has(vl, k), fn_(map_at(vl, k), "$amt"))
                nv = map_at(f(r.self1, "vaults"), k)
                ck.same("%s: vault amount" % r.id, fn_(nv, "$amt"), was + d, r)
                ck.same("%s: vault kept" % r.id, map_has(f(r.self1, "vaults"), k), ONE, r)
                ck.ob("%s: vault stored under its own resource" % r.id, f(nv, "$res") is k, r, show(nv, 6)[:400])
            effect_free(ck, r, kinds)

    def own(*ks):
        return tuple((f(map_at(vl, k), "$res"), k) for k in ks)

    tk = arg("tokens")
    for there in (0, 1):
        k = f(tk, "$res")
        g = (map_has(vl, k) if there else ONE - map_has(vl, k),)
        r = V("put", given=g, label="vault exists" if there else "no vault yet", vals=own(k))
        moved(r, {k: fn_(tk, "$amt")}, ("put",))
        g = (map_has(vl, res) if there else ONE - map_has(vl, res),)
        for m, out in (("take", amt), ("take_advanced", rounded(amt, strat))):
            r = V(m, given=g, label="vault exists" if there else "no vault yet", vals=own(res))
            moved(r, {res: -out}, ("take",))
            with given(r.known, r.vals):
                ck.ob("%s: hands out the resource asked for" % r.id, f(r.ret, "$res") is res, r, show(r.ret, 5))
                ck.same("%s: hands out what left the vault" % r.id, fn_(r.ret, "$amt"), out, r)
    xa, ya = num(arg("first_amount")), num(arg("second_amount"))
    for n in (0, 1, 2):
        ks, am = [X, Y][:n], [xa, ya][:n]
        bs = [mk("adt", "Bucket", "", ("$res", "$amt"), (k, a)) for k, a in zip(ks, am)]
        r = V("put_batch", given=differ(*ks), label="%d bucket(s)" % n, vals=own(*ks) + ((arg("tokens"), vec(*bs)),))
        moved(r, dict(zip(ks, am)), ("put",))
        for m, out in (("take_batch", am), ("take_advanced_batch", [rounded(a, strat) for a in am])):
            r = V(m, given=differ(*ks) + tuple(map_has(vl, k) for k in ks), label="%d claim(s)" % n,
                  vals=own(*ks) + ((arg("claims"), vec(*[tup(k, a) for k, a in zip(ks, am)])),))
            moved(r, {k: -o for k, o in zip(ks, out)}, ("take",))
            with given(r.known, r.vals):
                e = entries(r.ret)
                ok = e is not None and len(e) == n
                ck.ob("%s: one bucket per claim" % r.id, ok, r, show(r.ret, 5)[:400])
                if ok:
                    for (b, _), k, o in zip(e, ks, out):
                        ck.ob("%s: bucket of the claimed resource" % r.id, f(b, "$res") is k, r, show(b, 4))
                        ck.same("%s: bucket of the claimed amount" % r.id, fn_(b, "$amt"), o, r)
