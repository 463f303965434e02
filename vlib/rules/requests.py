"""C05 request execution, C06 request submission, C07 cancellation and take-profit/stop-loss linking."""
from rules.flow import *

PU = ("none", "some")            # with / without fresh price updates
OPEN = ("ACTIVE", "DORMANT")


def vec(*xs):
    return tm.mkcat(tuple(("one", x, ONE) for x in xs))


def entries(v):
    """elements of a vec of known content, or None"""
    if isinstance(v, T) and v.op == "cat" and all(s[0] == "one" for s in v.a[0]):
        return [(s[1], s[-1]) for s in v.a[0]]
    return None


def is_st(status, *names):
    return tm._sum([eq0(num(status, "u8") - STATUS[n], True) for n in names])


def same_map_at(ck, rule, m, want, where):
    """map m is exactly {key: value if present}: want = [(key, value, presence)] with distinct keys"""
    base, w = tm.map_chain(m) if isinstance(m, T) else (None, [])
    ok = base is not None and base.op == "mapnew" and {k for k, v, p in w if p.d} == {k for k, v, p in want if p.d}
    ck.ob("%s: touches exactly the expected entries" % rule, ok, where, "found %s" % show(m, 8)[:900])
    if ok:
        for k, v, p in want:
            ck.same("%s: presence of entry %s" % (rule, show(k, 3)), map_has(m, k), p, where)
            if p.d:
                got = map_at(m, k)
                ck.ob("%s: value of entry %s" % (rule, show(k, 3)), got is v or same_under(got, v, p), where,
                      "found %s\nrequired %s" % (show(got, 8)[:700], show(v, 8)[:700]))


def same_under(got, want, p):
    """equal whenever p"""
    if isinstance(got, T) and got.op == "gate":
        return all(same_under(v, want, mulx(g, p)) for v, g in got.a[0])
    if not p.d or got is want:
        return True
    return cond_eq(got, want, p)


def setstat(kr, n):
    return tm.set_field(kr, "status", C(STATUS[n]))


def get_req(i):
    return f(RET("MarginAccount", "get_request", acct(), (i,)), "?")


def set_of(v, want, when=ONE):
    """v is a list whose present elements are (whenever `when`) exactly want [(elem, guard)] as a set"""
    e = entries(v)
    if e is None:
        return False
    acc = {}
    for x, g in e:
        acc[x] = b_or(acc.get(x, ZERO), g)
    acc = {x: g for x, g in acc.items() if mulx(g, when).d}
    w = {x: g for x, g in want if mulx(g, when).d}
    return set(acc) == set(w) and all(not mulx(acc[x] - w[x], when).d for x in w)


def c05(ck):
    for pu in PU:
        q = Req()
        r = ck.entry("exchange", "process_request", price_updates=pu)
        st = q.status
        ck.must(r, "%s: the request exists" % r.id, is_some(q.opt))
        ck.must(r, "%s: requests invalidated by a liquidation are never processed" % r.id,
                ONE - lt0(q.index - fn_(ACC, "valid_requests_start", "u64"), True))
        ck.must(r, "%s: only after the submission time" % r.id, lt0(q.submission - now(), True))
        ck.must(r, "%s: before expiry only an active request" % r.id, is_st(st, "ACTIVE"), ONE - q.expired)
        ck.must(r, "%s: after expiry only an active or dormant request" % r.id, is_st(st, *OPEN), q.expired)

        x = Flow(ck, "process_request", (q.expired,), "expired", price_updates=pu)
        with x.given():
            u = x.upd
            same_map_at(ck, "expired request: stored as expired", f(u, "request_updates"),
                        [(q.index, setstat(q.kr, "EXPIRED"), ONE)], x.r)
            ck.ob("expired request: leaves the active set", set_of(f(u, "active_request_removals"), [(q.index, ONE)]), x.r)
            quiet(ck, x, "expired request", ("get_info", "get_request", "update"))
        for nm, case in (("removal", (ONE - q.expired, ONE - q.order)), ("order", (ONE - q.expired, q.order))):
            if nm == "removal":
                x = Flow(ck, "process_request", case, nm, price_updates=pu)
                with x.given():
                    u = x.upd
                    same_map_at(ck, "executed removal: stored as executed", f(u, "request_updates"),
                                [(q.index, setstat(q.kr, "EXECUTED"), ONE)], x.r)
                    ck.ob("executed removal: leaves the active set",
                          set_of(f(u, "active_request_removals"), [(q.index, ONE)]), x.r)
                    no_new(ck, x, "executed removal")
                continue
            X, Y = num(arg("other_x"), "u64"), num(arg("other_y"), "u64")
            act, can = f(q.mo, "activate_requests"), f(q.mo, "cancel_requests")
            full = pu == "none"
            combos = [((), ()), ((X,), ()), ((), (X,)), ((X,), (X,)), ((X,), (Y,)), ((X, Y), ()), ((), (X, Y)),
                      ((q.index,), ()), ((), (q.index,))] if full else [((), ()), ((X,), (Y,))]
            for a, c in combos:
                g = case
                syms = []
                for s in a + c:
                    if s is not q.index and s not in syms:
                        syms.append(s)
                for i, s in enumerate(syms):
                    for t in syms[:i] + [q.index]:
                        g = g + (ONE - eq0(s - t, True),)
                lab = "order, activates %s, cancels %s" % ([show(z) for z in a], [show(z) for z in c])
                x = Flow(ck, "process_request", g, lab, ((act, vec(*a)), (can, vec(*c))), price_updates=pu)
                with x.given():
                    u = x.upd
                    want = [(q.index, setstat(q.kr, "EXECUTED"), ONE)]
                    gone = [(q.index, ONE)]
                    for s in syms:
                        kr = get_req(s)
                        ac = is_st(f(kr, "status"), "DORMANT")
                        ca = is_st(f(kr, "status"), *OPEN)
                        if s in a and s in c:
                            want.append((s, setstat(kr, "CANCELLED"), ca))
                            gone.append((s, ca))
                        elif s in a:
                            want.append((s, setstat(kr, "ACTIVE"), ac))
                        else:
                            want.append((s, setstat(kr, "CANCELLED"), ca))
                            gone.append((s, ca))
                    same_map_at(ck, "executed %s: request records" % lab, f(u, "request_updates"), want, x.r)
                    ck.ob("executed %s: active set" % lab, set_of(f(u, "active_request_removals"), gone), x.r,
                          "found %s" % show(f(u, "active_request_removals"), 8)[:900])
                    no_new(ck, x, "executed " + lab)


def no_new(ck, x, what):
    u = x.upd
    ck.ob("%s: creates no request" % what, entries(f(u, "request_additions")) == [] and
          entries(f(u, "active_request_additions")) == [], x.r, show(f(u, "request_additions"), 5))
    ck.same("%s: valid range of requests unchanged" % what, num(f(u, "valid_requests_start"), "u64"),
            fn_(ACC, "valid_requests_start", "u64"), x.r)


def noop_positions(pm, old):
    """a position update map that changes nothing"""
    if pm.op == "mapnew":
        return True
    if pm.op == "mapcomp":
        return not pm.a[3].d or (isinstance(pm.a[1], T) and pm.a[1].op == "key" and map_at(pm, pm.a[1]) is map_at(old, pm.a[1]))
    return pm is old


def quiet(ck, x, what, account_methods):
    """the operation changes nothing but the account's request records"""
    u = x.upd
    no_new(ck, x, what)
    ck.same("%s: balance unchanged" % what, fn_(u, "virtual_balance"), fn_(ACC, "virtual_balance"), x.r)
    ck.ob("%s: positions unchanged" % what, noop_positions(f(u, "position_updates"), f(ACC, "positions")), x.r,
          show(f(u, "position_updates"), 6)[:500])
    for e, p in x.r.calls():
        ok = e.d["pure"] or (e.d["bp"] == "MarginAccount" and e.d["method"] in account_methods)
        ck.ob("%s: no call of %s.%s" % (what, e.d["bp"], e.d["method"]), ok, e)
    for k in ("put", "take", "burn", "deposit_account", "setrole", "nfupdate", "mintnf"):
        for e, p in x.r.ev(k):
            ck.ob("%s: moves nothing (%s)" % (what, k), False, e)


# ---------------------------------------------------------------- submission
def strip_casts(p):
    p = lift(p)
    while True:
        c = [t for t in subterms(p) if t.op == "cast"]
        if not c:
            return p
        p = subst(p, {c[0]: c[0].a[2]})


def request_of(kr):
    e = f(kr, "request")
    return e.a[0] if isinstance(e, T) and e.op == "enc" else None


def oaths(ck, method, **kw):
    for o in ("none", "some"):
        yield Flow(ck, method, fee_oath=o, **kw)


def submitted(ck, x, n):
    """the n new requests, and what every submission shares"""
    u = x.upd
    what = x.r.id
    ln = fn_(ACC, "requests_len", "u64")
    new = entries(f(u, "request_additions"))
    if not ck.ob("%s: appends exactly %d request(s)" % (what, n), new is not None and len(new) == n and
                 all(g is ONE for _, g in new), x.r, show(f(u, "request_additions"), 4)[:500]):
        return None
    ck.ob("%s: exactly the new requests join the active set" % what,
          set_of(f(u, "active_request_additions"), [(ln + i, ONE) for i in range(n)]), x.r,
          show(f(u, "active_request_additions"), 6)[:400])
    ck.ob("%s: existing requests are not touched" % what, f(u, "request_updates").op == "mapnew" and
          entries(f(u, "active_request_removals")) == [], x.r)
    ck.same("%s: valid range of requests unchanged" % what, num(f(u, "valid_requests_start"), "u64"),
            fn_(ACC, "valid_requests_start", "u64"), x.r)
    ck.ob("%s: positions unchanged" % what, noop_positions(f(u, "position_updates"), f(ACC, "positions")), x.r)
    cap = fn_(x.cfg, "exchange.active_requests_max", "u64")
    ck.must(x.r, "%s: active requests stay within the limit" % what,
            ONE - lt0(cap - fn_(ACC, "active_requests_len", "u64") - n, True))
    for e, p in x.r.calls():
        ok = e.d["pure"] or e.d["bp"] == "MarginAccount" and e.d["method"] == "update"
        ck.ob("%s: no call of %s.%s" % (what, e.d["bp"], e.d["method"]), ok, e)
    return [v for v, _ in new]


def times(ck, x, what, kr, delay):
    d = num(arg("delay_seconds"), "u64") if delay else ZERO
    ck.same("%s: submission time is the delay from now" % what, fn_(kr, "submission", "i64"), now() + d, x.r)
    ck.same("%s: expiry is counted from the submission" % what, fn_(kr, "expiry", "i64"),
            now() + d + num(arg("expiry_seconds"), "u64"), x.r)


def fields(ck, x, what, req, **want):
    for n, w in want.items():
        g = f(req, n)
        if isinstance(w, P):
            ty = "u64"
            g = boolv(g) if tm.is_bool(w) and n == "reduce_only" else num(g)
            ck.same("%s: %s" % (what, n), g, w, x.r)
        else:
            ck.ob("%s: %s" % (what, n), g is w, x.r, "found %s\nrequired %s" % (show(g, 6)[:600], show(w, 6)[:600]))


def size_ok(ck, x):
    amt = num(arg("amount"))
    smin = fn_(at(f(x.cfg, "pair_configs"), arg("pair_id")), "trade_size_min")
    ck.must(x.r, "%s: orders below the pair's minimum size are refused" % x.r.id, ONE - lt0(pabs(amt) - smin))


def short_list(ck, x, name, most):
    ck.must(x.r, "%s: at most %d %s" % (x.r.id, most, name.replace("_", " ")),
            ONE - lt0(C(most) - coll_len(arg(name)), True))


def coll_len(v):
    import stdmodel
    return stdmodel.vec_len(v)


def c06(ck):
    # withdrawals
    for x in oaths(ck, "remove_collateral_request"):
        with x.given():
            new = submitted(ck, x, 1)
            if new:
                kr, what = new[0], x.r.id
                req = request_of(kr)
                times(ck, x, what, kr, False)
                ck.same("%s: submitted as active" % what, fn_(kr, "status", "u8"), C(1), x.r)
                if ck.ob("%s: records a withdrawal" % what, req is not None and req.op == "adt" and
                         req.a[1] == "RemoveCollateral", x.r, show(f(kr, "request"), 4)):
                    fields(ck, x, what, f(req, "@RemoveCollateral.0"), target_account=arg("target_account"), claims=arg("claims"))
                ec = entries(f(kr, "effected_components"))
                ck.ob("%s: names the target account as affected" % what, ec == [(arg("target_account"), ONE)], x.r,
                      show(f(kr, "effected_components"), 4))
            short_list(ck, x, "claims", 10)
            ck.same("%s: returns the request's index" % x.r.id, num(x.r.ret, "u64"), fn_(ACC, "requests_len", "u64"), x.r)
    # orders
    ref_ = "exchange::exchange::requests::RequestIndexRef"
    ix = lambda v, x: mk("adt", ref_, v, ("0",), (x,))
    X, Y, D = num(arg("some_index"), "u64"), num(arg("other_index"), "u64"), num(arg("offset"), "i64")
    ln = fn_(ACC, "requests_len", "u64")
    for x in oaths(ck, "margin_order_request"):
        with x.given():
            new = submitted(ck, x, 1)
            if new:
                kr, what = new[0], x.r.id
                times(ck, x, what, kr, True)
                st = num(arg("status"), "u8")
                ck.same("%s: submitted with the given status" % what, fn_(kr, "status", "u8"), st, x.r)
                ck.must(x.r, "%s: only as active or dormant" % what, eq0(st, True) + eq0(st - 1, True))
                order(ck, x, what, kr, num(arg("amount")), boolv(arg("reduce_only")), arg("price_limit"))
            size_ok(ck, x)
            short_list(ck, x, "activate_requests", 2)
            short_list(ck, x, "cancel_requests", 2)
            ck.same("%s: returns the request's index" % x.r.id, num(x.r.ret, "u64"), ln, x.r)
    for a, c in (((), ()), ((("Index", X),), (("RelativeIndex", D),)), ((("RelativeIndex", D),), (("Index", X),)),
                 ((("Index", X), ("Index", Y)), ()), ((), (("Index", X), ("RelativeIndex", D)))):
        lab = "activates %s, cancels %s" % ([(v, show(i)) for v, i in a], [(v, show(i)) for v, i in c])
        x = Flow(ck, "margin_order_request", label=lab, fee_oath="none",
                 vals=((arg("activate_requests"), vec(*[ix(*z) for z in a])), (arg("cancel_requests"), vec(*[ix(*z) for z in c]))))
        with x.given():
            new = entries(f(x.upd, "request_additions"))
            req = request_of(new[0][0]) if new else None
            if ck.ob("%s: records an order" % x.r.id, req is not None and req.a[1] == "MarginOrder", x.r):
                for n, l in (("activate_requests", a), ("cancel_requests", c)):
                    got = entries(f(req, "@MarginOrder.0." + n))
                    want = [ln + i if v == "RelativeIndex" else i for v, i in l]
                    ck.ob("%s: %s refer to the requests named" % (x.r.id, n), got is not None and
                          [strip_casts(num(g, "u64")) for g, _ in got] == want, x.r, show(f(req, "@MarginOrder.0." + n), 8)[:600])


def order(ck, x, what, kr, amount, reduce_only, price_limit, slippage=None):
    req = request_of(kr)
    if not ck.ob("%s: records an order" % what, req is not None and req.op == "adt" and req.a[1] == "MarginOrder", x.r,
                 show(f(kr, "request"), 4)):
        return None
    o = f(req, "@MarginOrder.0")
    fields(ck, x, what, o, pair_id=arg("pair_id"), amount=amount, slippage_limit=arg("slippage_limit"))
    g = f(o, "reduce_only")
    ck.same("%s: reduce_only" % what, boolv(g), reduce_only, x.r)
    if isinstance(price_limit, tuple):
        pl = f(o, "price_limit")
        v, p = price_limit
        ck.ob("%s: price limit is %s the given price" % (what, v), isinstance(pl, T) and pl.op == "adt" and pl.a[1] == v and
              num(pl.a[3][0]) is num(p), x.r, show(pl, 5)[:500])
    else:
        ck.ob("%s: price limit is the one given" % what, f(o, "price_limit") is price_limit, x.r, show(f(o, "price_limit"), 5))
    return o


def refs(ck, x, what, o, name, want):
    got = entries(f(o, name))
    ck.ob("%s: %s" % (what, name), got is not None and all(g is ONE for _, g in got) and
          sorted(num(v, "u64").id for v, _ in got) == sorted(w.id for w in want), x.r,
          "found %s required %s" % (show(f(o, name), 6)[:500], [show(w) for w in want]))


def c07(ck):
    amt = num(arg("amount"))
    ln = fn_(ACC, "requests_len", "u64")
    # linked orders
    for o in ("none", "some"):
        for tp in ("none", "some"):
            for sl in ("none", "some"):
                for side, g in (("buy", lt0(-amt)), ("sell", lt0(amt))):
                    x = Flow(ck, "margin_order_tp_sl_request", (g,), side, fee_oath=o, price_tp=tp, price_sl=sl)
                    with x.given():
                        linked(ck, x, tp == "some", sl == "some", side == "buy", ln, amt)
    # cancellation by the owner
    X, Y = num(arg("some_index"), "u64"), num(arg("other_index"), "u64")
    for o in ("none", "some"):
        for l in ((), (X,), (X, Y), (X, X)):
            g = (ONE - eq0(X - Y, True),) if Y in l else ()
            x = Flow(ck, "cancel_requests", g, "cancels %s" % [show(z) for z in l], ((arg("indexes"), vec(*l)),), fee_oath=o)
            with x.given():
                u = x.upd
                s = []
                for z in l:
                    if z not in s:
                        s.append(z)
                same_map_at(ck, "%s: request records" % x.r.id, f(u, "request_updates"),
                            [(z, setstat(get_req(z), "CANCELLED"), ONE) for z in s], x.r)
                okay = ONE
                for z in s:
                    okay = mulx(okay, is_st(f(get_req(z), "status"), *OPEN))
                ck.ob("%s: exactly they leave the active set" % x.r.id,
                      set_of(f(u, "active_request_removals"), [(z, ONE) for z in s], okay), x.r,
                      show(f(u, "active_request_removals"), 7)[:600])
                no_new(ck, x, x.r.id)
                for z in s:
                    ck.must(x.r, "%s: only active or dormant requests can be cancelled" % x.r.id,
                            is_st(f(get_req(z), "status"), *OPEN))
                    ck.must(x.r, "%s: the request exists" % x.r.id, is_some(RET("MarginAccount", "get_request", acct(), (z,))))
                if o == "none":
                    quiet(ck, x, x.r.id, ("get_info", "get_request", "update"))
    # no other operation edits requests
    for m in MUTATORS:
        if m in ("process_request", "cancel_requests", "margin_order_request", "margin_order_tp_sl_request",
                 "remove_collateral_request"):
            continue
        r = ck.entry("exchange", m)
        for e, p in r.calls("MarginAccount", "update"):
            u = e.d["args"][0]
            ck.ob("%s edits no request" % r.id, f(u, "request_updates").op == "mapnew" and
                  all(entries(f(u, n)) == [] for n in ("request_additions", "active_request_additions", "active_request_removals")),
                  e, show(f(u, "request_updates"), 5)[:400])


def linked(ck, x, tp, sl, buy, ln, amt):
    n = 1 + tp + sl
    what = x.r.id
    new = submitted(ck, x, n)
    size_ok(ck, x)
    if not new:
        return
    itp = ln + 1 if tp else None
    isl = ln + 1 + (1 if tp else 0) if sl else None
    idx = [i for i in (itp, isl) if i is not None]
    for kr in new:
        times(ck, x, what, kr, True)
    o = order(ck, x, what + ": main order", new[0], amt, boolv(arg("reduce_only")), arg("price_limit"))
    ck.same("%s: main order is active" % what, fn_(new[0], "status", "u8"), C(1), x.r)
    if o is not None:
        refs(ck, x, what + ": main order", o, "activate_requests", idx)
        refs(ck, x, what + ": main order", o, "cancel_requests", [])
    for on, i, j, price, v, nm in ((tp, 1, isl, "price_tp", "Gte" if buy else "Lte", "take profit"),
                                   (sl, 1 + (1 if tp else 0), itp, "price_sl", "Lte" if buy else "Gte", "stop loss")):
        if not on:
            continue
        w = "%s: %s" % (what, nm)
        q = order(ck, x, w, new[i], -amt, ONE, (v, f(arg(price), "?")))
        ck.same("%s waits dormant" % w, fn_(new[i], "status", "u8"), ZERO, x.r)
        if q is not None:
            refs(ck, x, w, q, "activate_requests", [])
            refs(ck, x, w, q, "cancel_requests", [j] if j is not None else [])
    rt_ = x.r.ret
    ck.same("%s: returns the main order's index" % what, num(f(rt_, "0"), "u64"), ln, x.r)
    for k, i in (("1", itp), ("2", isl)):
        v = f(rt_, k)
        if i is None:
            ck.ob("%s: returns no index for an absent leg" % what, not is_some(v).d, x.r, show(v, 4))
        else:
            ck.ob("%s: returns the leg's index" % what, is_some(v) is ONE and num(f(v, "?"), "u64") is i, x.r, show(v, 4))
