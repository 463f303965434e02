"""C20 oracle store: authenticated, monotone prices."""
from rules.flow import *
from rules.requests import vec, entries, same_under
from rules.storage import changes, map_writes, effect_free, unchanged, differ, mapof

PRICES_T = "std::vec::Vec<oracle::oracle::structs::Price>"


def decoded(r):
    """the price list decoded from the pushed bytes"""
    ts = set()
    stack = [r.self1, r.ret]
    for e, p in r.evs:
        stack += [v for v in e.d.values() if isinstance(v, (T, P))]
    for v in stack:
        ts |= {t for t in subterms(v) if t.op == "dec" and t.a[1] is arg("data")}
    if len(ts) != 1:
        raise Missing("%s: %d decodings of the pushed data" % (r.id, len(ts)))
    return ts.pop()


def lookup(ck, r, ret, prices, keys):
    base, w = tm.map_chain(ret)
    if ck.ob("%s: exactly the asked pairs are answered" % r.id, base.op == "mapnew" and {k for k, v, p in w} == set(keys), r,
             show(ret, 6)[:500]):
        for k in keys:
            ck.same("%s: pair answered" % r.id, map_has(ret, k), ONE, r)
            for i, ty in (("0", None), ("1", "i64")):
                ck.same("%s: stored %s" % (r.id, "price" if i == "0" else "timestamp"), fn_(map_at(ret, k), i, ty),
                        fn_(map_at(prices, k), i, ty), r)
            ck.must(r, "%s: a missing price is an error" % r.id, map_has(prices, k))


def c20(ck):
    A_, B_ = arg("pair_a"), arg("pair_b")

    def ids(*ks):
        with given(differ(*ks)):
            m = mk("mapnew")
            for k in ks:
                m = tm.mapw(m, k, UNIT, ONE)
        return m

    for m in ("get_prices", "get_prices_with_auth"):
        for ks in ((), (A_,), (A_, B_)):
            r = ck.entry("oracle", m, given=differ(*ks), label="%d pair(s)" % len(ks), vals=((arg("pair_ids"), ids(*ks)),))
            with given(r.known, r.vals):
                unchanged(ck, r)
                lookup(ck, r, r.ret, f(r.res_self0, "prices"), ks)
    for m in ("push_and_get_prices", "push_and_get_prices_with_auth"):
        r = ck.entry("oracle", m)
        S = r.res_self0
        key = map_at(f(S, "keys"), num(arg("key_id"), "u64"))
        ck.must(r, "%s: the named key is registered" % r.id, map_has(f(S, "keys"), num(arg("key_id"), "u64")))
        sig = [e for e, p in r.evs if e.kind == "assert" and not p and e.g is ONE and verified(e.d["cond"], key)]
        ck.ob("%s: the data's signature is verified under the named key" % r.id, len(sig) >= 1, r,
              "no unconditional assertion that the signature over the hash of the pushed data verifies")
        dec = decoded(r)
        pa, pb = arg("new_a"), arg("new_b")
        old = f(S, "prices")
        X, Y = f(pa, "pair"), f(pb, "pair")
        for label, lst, g in (("no price", (), ()), ("one price", (pa,), ()),
                              ("two prices", (pa, pb), (ONE - tm.eqv(X, Y),)), ("same pair twice", (pa, pb), (tm.eqv(X, Y),))):
            for asked in ((), (A_,)):
                r = ck.entry("oracle", m, given=g, label="%s, %d asked" % (label, len(asked)),
                             vals=((dec, vec(*lst)), (arg("pair_ids"), ids(*asked))) + (((Y, X),) if label == "same pair twice" else ()))
                with given(r.known, r.vals):
                    new = f(r.self1, "prices")
                    changes(ck, r.id, r, {"prices": new})
                    effect_free(ck, r)
                    want = {}
                    for p in lst:
                        k = f(p, "pair")
                        has, (q0, t0) = want.get(k, (map_has(old, k), (fn_(map_at(old, k), "0"), fn_(map_at(old, k), "1", "i64"))))
                        t = fn_(p, "timestamp", "i64")
                        newer = b_or(ONE - has, lt0(t0 - t, True))
                        want[k] = (ONE, (mulx(newer, fn_(p, "quote")) + mulx(ONE - newer, q0), mulx(newer, t) + mulx(ONE - newer, t0)))
                    base, w = tm.map_chain(new)
                    if ck.ob("%s: only the pushed pairs change" % r.id, base is old and {k for k, v, p in w} <= set(want), r, show(new, 6)[:500]):
                        for k, (has, (q, t)) in want.items():
                            ck.same("%s: pushed pair stored" % r.id, map_has(new, k), has, r)
                            v = map_at(new, k)
                            ck.same("%s: price of the newest timestamp" % r.id, fn_(v, "0"), q, r)
                            ck.same("%s: newest timestamp" % r.id, fn_(v, "1", "i64"), t, r)
                    lookup(ck, r, r.ret, new, asked)
    r = ck.entry("oracle", "add_key")
    i = num(arg("id"), "u64")
    changes(ck, r.id, r, {"keys": ("map", [(i, arg("public_key"), ONE)])})
    ck.must(r, "%s: a key is never replaced" % r.id, ONE - map_has(f(r.res_self0, "keys"), i))
    ck.accepts(r, r.id)
    r = ck.entry("oracle", "remove_key")
    changes(ck, r.id, r, {"keys": ("map", [(i, UNIT, ZERO)])})
    r = ck.entry("oracle", "remove_price")
    changes(ck, r.id, r, {"prices": ("map", [(arg("pair_id"), UNIT, ZERO)])})
    r = ck.entry("oracle", "new")
    st = role_chain(r)[2]
    ck.ob("initially exactly the given keys", f(st, "keys") is arg("keys"), r, show(f(st, "keys"), 4))
    ck.ob("initially no price", f(st, "prices") is mk("mapnew"), r, show(f(st, "prices"), 4))


def verified(cond, key):
    """cond asserts (and nothing weaker) that bls verification of keccak(data) under key holds"""
    a = cond.d if isinstance(cond, P) else {}
    inds = p_inds(cond)
    for t in inds:
        for s in subterms(A(t)):
            if s.op == "blsverify":
                h, k, sg = s.a[0]
                hashed = isinstance(h, T) and h.op == "call" and "keccak256_hash" in h.a and h.a[1] == (arg("data"),)
                if hashed and k is key and sg is arg("signature") and not mulx(cond, ONE - A(t)).d:
                    return True
    return False
