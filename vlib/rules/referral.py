"""C29 referral codes and allocations (store), C30 referral records and limits (exchange)."""
from rules.assets import *
from rules.storage import changes, map_writes, effect_free, unchanged, mapof, map_writes, opt_entry

R1, R2 = arg("first_resource"), arg("second_resource")
X1, X2 = num(arg("first_amount")), num(arg("second_amount"))
CA, CB = num(arg("claim_a")), num(arg("claim_b"))
CNT = num(arg("count"), "u64")


def summed(v):
    """a vec of buckets or pairs as {resource: total}, None if not of known content"""
    e = moved_vec(v)
    if e is None:
        return None
    out = {}
    for b in e:
        k, a = (f(b, "$res"), fn_(b, "$amt")) if b.op != "tup" else (f(b, "0"), fn_(b, "1"))
        out[k] = out.get(k, ZERO) + a
    return out


def sums_to(ck, rule, v, want, where):
    got = summed(v)
    ck.ob(rule, got is not None and {k: a for k, a in got.items() if a.d}.keys() == {k: a for k, a in want.items() if a.d}.keys() and
          all(got[k] is want[k] for k in want if want[k].d), where, "found %s" % show(v, 7)[:700])


def in_vaults(ck, r, S, delta, ret=None):
    """each vault changes by exactly delta"""
    vl = f(S, "vaults.vaults")
    base, w = tm.map_chain(f(r.self1, "vaults.vaults"))
    if not ck.ob("%s: exactly the named vaults change" % r.id, base is vl and {k for k, v, p in w} <= set(delta), r, show(f(r.self1, "vaults.vaults"), 6)[:600]):
        return
    for k, d in delta.items():
        was = mulx(map_has(vl, k), fn_(map_at(vl, k), "$amt"))
        new = f(r.self1, "vaults.vaults")
        ck.same("%s: vault amount" % r.id, mulx(map_has(new, k), fn_(map_at(new, k), "$amt")), was + d, r)


TOKENS = [("no token", []), ("one token", [(R1, X1)]), ("two tokens", [(R1, X1), (R2, X2)]), ("same token twice", [(R1, X1), (R1, X2)])]
CLAIMS = [("no claim", []), ("one claim", [(R1, CA)]), ("two claims", [(R1, CA), (R2, CB)]), ("same claim twice", [(R1, CA), (R1, CB)])]
ONLY = ("take", "put")


def funded(ck, r, S, tokens, total, what):
    """claims in `total` are set aside from the tokens, rounded up; the rest is handed back"""
    have = {}
    for k, a in tokens:
        have[k] = have.get(k, ZERO) + a
    set_aside = {}
    for k, t in total.items():
        if k in have:
            ck.must(r, "%s: the tokens cover the claims" % r.id, ONE - lt0(have[k] - t))
            set_aside[k] = tm.round_(t, TO_INFINITY)
        else:
            ck.must(r, "%s: a claim without tokens is empty" % r.id, eq0(t))
    in_vaults(ck, r, S, set_aside)
    for e, p in r.evs:
        if e.kind in EFFECTS or e.kind == "call" and not e.d["pure"]:
            ck.ob("%s: tokens only move into the vaults" % r.id, e.kind in ONLY, e)
    return {k: a - set_aside.get(k, ZERO) for k, a in have.items()}


def c29(ck):
    RID = arg("referral_id")
    for tn, tokens in TOKENS:
        for cn, claims in CLAIMS:
            g = differ(R1, R2)
            own = tuple((f(map_at(f(arg("self"), "vaults.vaults"), k), "$res"), k) for k in (R1, R2))
            cv = vec(*[eng.tup(k, a) for k, a in claims])
            r = ck.entry("referral_generator", "add_allocation", given=g, label="%s, %s" % (tn, cn),
                         vals=((arg("tokens"), vec(*[bucket(k, a) for k, a in tokens])), (arg("claims"), cv)))
            S = r.res_self0
            with given(r.known, r.vals):
                total = {}
                for k, a in claims:
                    total[k] = total.get(k, ZERO) + a * CNT
                    ck.must(r, "%s: claims are positive" % r.id, lt0(-a))
                rest = funded(ck, r, S, tokens, total, r.id)
                al = f(S, "referral_allocations")
                had = map_has(al, RID)
                changes(ck, r.id, r, {"referral_allocations": f(r.self1, "referral_allocations"), "vaults": f(r.self1, "vaults")})
                base, w = tm.map_chain(f(r.self1, "referral_allocations"))
                ck.ob("%s: only this referral's allocations change" % r.id, base is al and {k for k, v, p in w} == {RID}, r)
                ck.same("%s: the list is kept" % r.id, map_has(f(r.self1, "referral_allocations"), RID), ONE, r)
                v = map_at(f(r.self1, "referral_allocations"), RID)
                segs = v.a[0] if isinstance(v, T) and v.op == "cat" else ()
                new = [s[1] for s in segs if s[0] == "one" and s[-1] is ONE]
                old = [s for s in segs if s[0] != "one"]
                ck.ob("%s: one allocation is appended" % r.id, len(new) == 1 and len(old) <= 1 and
                      all(s[1] is map_at(al, RID) and s[-1] is had for s in old) and (old or not had.d) and segs[-1][1] is new[0], r, show(v, 6)[:600])
                if new:
                    ck.ob("%s: with the claims given" % r.id, f(new[0], "claims") is cv, r, show(new[0], 6)[:500])
                    ck.same("%s: unused" % r.id, fn_(new[0], "count", "u64"), ZERO, r)
                    ck.same("%s: with the count given" % r.id, fn_(new[0], "max_count", "u64"), CNT, r)
                sums_to(ck, "%s: the rest is handed back" % r.id, f(r.ret, "0"), rest, r)
                ck.accepts(r, r.id)
                ck.same("%s: index of the new allocation" % r.id, fn_(r.ret, "1", "u64"), mulx(had, num(mk_len(map_at(al, RID)), "u64")), r)
    # codes with their own tokens
    HA, HB = arg("hash_a"), arg("hash_b")
    for tn, tokens in TOKENS:
        for hn, codes in (("no code", []), ("one code", [(HA, CLAIMS[1][1])]), ("a code without claims", [(HA, [])]),
                          ("two codes", [(HA, CLAIMS[1][1]), (HB, CLAIMS[2][1])]), ("two codes on one token", [(HA, [(R1, CA)]), (HB, [(R1, CB)])])):
            for multi in (0, 1):
                if multi and not codes:
                    continue
                na, nb = arg("count_a"), arg("count_b")
                ns = [num(na, "u64"), num(nb, "u64")][:len(codes)]
                g = differ(R1, R2) + differ(HA, HB) + tuple((ONE - eq0(n - 1)) if multi else eq0(n - 1) for n in ns)
                with given(differ(HA, HB)):
                    m = mapof(*[(h, eng.tup(vec(*[eng.tup(k, a) for k, a in cl]), n)) for (h, cl), n in zip(codes, ns)])
                r = ck.entry("referral_generator", "create_referral_codes", given=g, label="%s, %s%s" % (tn, hn, ", many uses" if multi else ""),
                             vals=((arg("tokens"), vec(*[bucket(k, a) for k, a in tokens])), (arg("referral_hashes"), m)))
                S = r.res_self0
                with given(r.known, r.vals):
                    if multi and any(cl for h, cl in codes):
                        ck.ob("%s: a code of many uses carries no claims" % r.id, r.must(ZERO), r)
                        continue
                    total = {}
                    for h, cl in codes:
                        for k, a in cl:
                            total[k] = total.get(k, ZERO) + a
                            ck.must(r, "%s: claims are positive" % r.id, lt0(-a))
                    short = [k for k in total if k not in [t for t, a in tokens]]
                    if short:       # claims are positive, so a sum that must be zero refuses them
                        for k in short:
                            ck.must(r, "%s: claims without tokens are refused" % r.id, eq0(total[k]))
                        continue
                    rest = funded(ck, r, S, tokens, total, r.id)
                    changes(ck, r.id, r, {"referral_codes": f(r.self1, "referral_codes"), "vaults": f(r.self1, "vaults")})
                    codes_written(ck, r, S, [(h, RID, vec(*[eng.tup(k, a) for k, a in cl]), n) for (h, cl), n in zip(codes, ns)])
                    sums_to(ck, "%s: the rest is handed back" % r.id, r.ret, rest, r)
                    ck.accepts(r, r.id)
    # codes from an allocation
    I = num(arg("allocation_index"), "u64")
    for n in (0, 1, 2):
        hs = [HA, HB][:n]
        with given(differ(HA, HB)):
            m = mapof(*[(h, UNIT) for h in hs])
        r = ck.entry("referral_generator", "create_referral_codes_from_allocation", given=differ(HA, HB), label="%d code(s)" % n,
                     vals=((arg("referral_hashes"), m),))
        S = r.res_self0
        with given(r.known, r.vals):
            al = f(S, "referral_allocations")
            lst = map_at(al, RID)
            ck.must(r, "%s: the referral has allocations" % r.id, map_has(al, RID))
            one = allocation(r, al, RID)
            ck.must(r, "%s: the allocation exists" % r.id, lt0(I - num(mk_len(lst), "u64"), True))
            ck.must(r, "%s: within the allocation" % r.id, ONE - lt0(fn_(one, "max_count", "u64") - fn_(one, "count", "u64") - n, True))
            changes(ck, r.id, r, {"referral_codes": f(r.self1, "referral_codes"), "referral_allocations": f(r.self1, "referral_allocations")})
            new = f(r.self1, "referral_allocations")
            base, w = tm.map_chain(new)
            ck.ob("%s: only this referral's allocations change" % r.id, base is al and {k for k, v, p in w} <= {RID}, r)
            if n:
                l2 = map_at(new, RID)
                base, w = tm.map_chain(l2)
                if ck.ob("%s: only this allocation changes" % r.id, base is lst and len(w) == 1 and num(w[0][0], "u64") is I, r, show(l2, 6)[:500]):
                    changes(ck, r.id + " allocation", r, {"count": fn_(one, "count", "u64") + n}, one, w[0][1])
            codes_written(ck, r, S, [(h, RID, f(one, "claims"), ONE) for h in hs])
            effect_free(ck, r)
            ck.accepts(r, r.id)
    # claiming
    H = arg("hash")
    for cn, claims in CLAIMS[:3]:
        cd = map_at(f(arg("self"), "referral_codes"), H)
        vl = f(arg("self"), "vaults.vaults")
        own = tuple((f(map_at(vl, k), "$res"), k) for k, a in claims)
        r = ck.entry("referral_generator", "claim_referral_code", given=differ(R1, R2) + tuple(map_has(vl, k) for k, a in claims), label=cn,
                     vals=((f(cd, "claims"), vec(*[eng.tup(k, a) for k, a in claims])),) + own)
        S = r.res_self0
        with given(r.known, r.vals):
            codes = f(S, "referral_codes")
            cd = map_at(codes, H)
            ck.must(r, "%s: the code exists" % r.id, map_has(codes, H))
            ck.must(r, "%s: the code is not used up" % r.id, lt0(fn_(cd, "count", "u64") - fn_(cd, "max_count", "u64"), True))
            changes(ck, r.id, r, {"referral_codes": f(r.self1, "referral_codes"), "vaults": f(r.self1, "vaults")})
            base, w = tm.map_chain(f(r.self1, "referral_codes"))
            if ck.ob("%s: only this code changes" % r.id, base is codes and {k for k, v, p in w} == {H}, r):
                changes(ck, r.id + " code", r, {"count": fn_(cd, "count", "u64") + 1}, cd, map_at(f(r.self1, "referral_codes"), H))
            out = {k: tm.round_(a, TO_ZERO) for k, a in claims}
            in_vaults(ck, r, S, {k: -a for k, a in out.items()})
            ck.ob("%s: the code's referral" % r.id, f(r.ret, "0") is f(cd, "referral_id"), r)
            sums_to(ck, "%s: exactly the claims are paid" % r.id, f(r.ret, "1"), out, r)
            ck.accepts(r, r.id)
            for e, p in r.evs:
                if e.kind in EFFECTS or e.kind == "call" and not e.d["pure"]:
                    ck.ob("%s: tokens only leave the vaults" % r.id, e.kind == "take", e)
    for m in ("get_allocations", "get_referral_code"):
        r = ck.entry("referral_generator", m)
        unchanged(ck, r)
        ck.accepts(r, r.id)
    r = ck.entry("referral_generator", "get_referral_code")
    opt_entry(ck, r, f(r.res_self0, "referral_codes"), H)
    al = f(arg("self"), "referral_allocations")
    for lab, had in (("with allocations", map_has(al, RID)), ("without allocations", ONE - map_has(al, RID))):
        r = ck.entry("referral_generator", "get_allocations", label=lab, given=(had,))
        with given(r.known, r.vals):
            want = map_at(f(r.res_self0, "referral_allocations"), RID)
            e = entries(r.ret)
            ck.ob("%s: as stored" % r.id, r.ret is want if "out" not in lab else e == [], r, show(r.ret, 5))


def mk_len(v):
    import stdmodel
    return stdmodel.vec_len(v)


def allocation(r, al, rid):
    lst = map_at(al, rid)
    import stdmodel
    return stdmodel.E.vec_at(lst, num(arg("allocation_index"), "u64")) if hasattr(stdmodel.E, "vec_at") else E().vec_at(lst, num(arg("allocation_index"), "u64"))


def codes_written(ck, r, S, codes):
    """exactly these new codes are stored, none replaced"""
    old, new = f(S, "referral_codes"), f(r.self1, "referral_codes")
    base, w = tm.map_chain(new)
    if not ck.ob("%s: exactly the named codes are stored" % r.id, base is old and {k for k, v, p in w} == {c[0] for c in codes}, r, show(new, 6)[:600]):
        return
    for h, rid, claims, n in codes:
        v = map_at(new, h)
        ck.same("%s: code stored" % r.id, map_has(new, h), ONE, r)
        ck.must(r, "%s: an existing code is never replaced" % r.id, ONE - map_has(old, h))
        ck.ob("%s: code of this referral" % r.id, f(v, "referral_id") is rid, r, show(f(v, "referral_id"), 4))
        ck.ob("%s: code carries the claims" % r.id, f(v, "claims") is claims, r, show(f(v, "claims"), 5)[:300])
        ck.same("%s: unused" % r.id, fn_(v, "count", "u64"), ZERO, r)
        ck.same("%s: number of uses" % r.id, fn_(v, "max_count", "u64"), n, r)
