"""C33: account creation and the permission index."""
from rules.assets import *
from rules.auth import *
from rules.storage import unchanged, effect_free

LEVELS = ("level_1", "level_2", "level_3")
RULE_T, NODE_T = "scrypto::prelude::AccessRule", "scrypto::prelude::AccessRuleNode"
OPEN = mk("adt", RULE_T, "AllowAll", (), ())
SHUT = mk("adt", RULE_T, "DenyAll", (), ())


def proof(n):
    return mk("adt", NODE_T, "ProofRule", ("0",), (arg(n),))


def anyof(*ns):
    return mk("adt", NODE_T, "AnyOf", ("0",), (vec(*ns),))


def protect(node):
    return mk("adt", RULE_T, "Protected", ("0",), (node,))


def alternatives(rule):
    """the rule and each of its direct alternatives"""
    out = {rule}
    if rule.op == "adt" and rule.a[1] == "Protected":
        n = rule.a[3][0]
        if isinstance(n, T) and n.op == "adt" and n.a[1] == "AnyOf":
            out |= {protect(x) for x, g in entries(n.a[3][0])}
    return out


def registry_after(ck, r, account):
    """membership of `account` per (rule, level) after the operation, where it was written: {(rule, level): True/False}"""
    seen, state, ver, ok = {}, {}, {}, True
    for e, p in r.calls("PermissionRegistry"):
        key = e.d["args"][0]
        sure = e.g is ONE and not p
        if e.d["method"] == "get_permissions":
            seen[e.d["ret"]] = (key, ver.get(key, 0))
        elif e.d["method"] == "set_permissions":
            if not ck.ob("%s: the index is updated on every successful path" % r.id, sure, e, show(e.g, 4)[:200]):
                continue
            v = e.d["args"][1]
            for lv in LEVELS:
                base, w = tm.map_chain(f(v, lv))
                src = [q for q in seen if f(q, lv) is base]
                good = len(src) == 1 and seen[src[0]] == (key, ver.get(key, 0))
                if not ck.ob("%s: an entry of the index is rewritten from its current content" % r.id, good, e, show(f(v, lv), 6)[:400]):
                    continue
                others = [k for k, x, pr in w if k is not account]
                ck.ob("%s: only this account's entry changes" % r.id, not others, e, str([show(k, 4) for k in others])[:300])
                if w and not others:
                    pr = w[-1][2]
                    ck.ob("%s: the account's entry is certain" % r.id, pr in (ZERO, ONE) or not pr.d, e, show(pr, 4))
                    state[key, lv] = bool(pr.d)
            ver[key] = ver.get(key, 0) + 1
        else:
            ck.ob("%s: no other use of the index" % r.id, False, e)
    return state


def check_index(ck, r, account, want):
    got = registry_after(ck, r, account)
    nm = lambda d: {"%s/%s" % (show(k, 6), lv): b for (k, lv), b in d.items()}
    for k, b in want.items():
        ck.ob("%s: the index lists the account exactly under its rules" % r.id, got.get(k, False if b is False else None) == b, r,
              "%s %s: %s, expected %s" % (show(k[0], 6), k[1], got.get(k), b))
    extra = {k: b for k, b in got.items() if k not in want}
    ck.ob("%s: the index changes nowhere else" % r.id, not extra, r, str(nm(extra))[:400])


def shapes(p):
    a, b = proof(p + "_a"), proof(p + "_b")
    return [("open", OPEN), ("closed", SHUT), ("one requirement", protect(a)), ("an alternative", protect(anyof(a))),
            ("two alternatives", protect(anyof(a, b))), ("no alternative", protect(anyof())),
            ("the same alternative twice", protect(anyof(a, a))), ("nested", protect(anyof(a, anyof(a, b))))]


def c33(ck):
    from rules.access import role_rule
    olds = shapes("old")
    news = shapes("new")
    a, b, n = proof("old_a"), proof("old_b"), proof("new_a")
    shared = [("shared alternative", protect(anyof(a)), protect(anyof(n, a))), ("split", protect(anyof(a, b)), protect(a)),
              ("joined", protect(a), protect(anyof(a, b))), ("swapped", protect(anyof(a, b)), protect(anyof(b, a)))]
    pairs_ = [("%s to %s" % (x, y), o, w) for x, o in olds for y, w in news] + shared + [("same (%s)" % x, o, o) for x, o in olds]
    for lv in (1, 2, 3):
        for lab, o, w in pairs_:
            r = ck.entry("exchange", "set_level_%d_auth" % lv, label=lab, fee_oath="none", vals=((role_rule(lv), o), (arg("rule"), w)))
            with given(r.known, r.vals):
                changed(ck, r, o, w, lv)
        for x, o in olds:
            r = ck.entry("exchange", "add_auth_rule", label="level %d, %s" % (lv, x), fee_oath="none",
                         vals=((role_rule(lv), o), (arg("level"), C(lv)), (arg("additional_rule"), n)))
            with given(r.known, r.vals):
                changed(ck, r, o, extend(o, n), lv)
    for x, o in olds:
        r = ck.entry("exchange", "create_recovery_key", label=x, fee_oath="none", vals=((role_rule(1), o),))
        with given(r.known, r.vals):
            w = r.ev("setrole")
            if ck.ob("%s: the rule is set once" % r.id, len(w) == 1, r):
                changed(ck, r, o, w[0][0].d["rule"], 1)
    # the other account operations leave the index alone
    for m in MUTATORS:
        if m in ("create_recovery_key", "add_auth_rule", "create_account") or m.startswith("set_level_"):
            continue
        r = ck.entry("exchange", m)
        c = [e for e, p in r.calls("PermissionRegistry")]
        ck.ob("%s leaves the permission index alone" % m, not c, c[0] if c else r)
    created(ck)
    registry(ck)


def changed(ck, r, old, new, lv):
    s = r.ev("setrole")
    ck.ob("%s: the account's rule is the new one" % r.id, len(s) == 1 and s[0][0].g is ONE and s[0][0].d["rule"] is new, r,
          str([show(e.d["rule"], 7) for e, p in s])[:400] + " expected " + show(new, 7)[:300])
    L = "level_%d" % lv
    want = {(k, L): False for k in alternatives(old)}
    want.update({(k, L): True for k in alternatives(new)})
    check_index(ck, r, addr(acct()), want)


def addr(c):
    return c.a[1] if c.op == "checked" else c


def extend(old, node):
    if old in (OPEN, SHUT):
        return protect(node)
    n = old.a[3][0]
    return protect(anyof(*([x for x, g in entries(n.a[3][0])] + [node]))) if n.a[1] == "AnyOf" else protect(anyof(n, node))


def created(ck):
    RC = arg("referral_code")
    T1 = arg("token_one")
    b1 = bucket(T1, num(arg("amount_one")))
    for lab, rule in shapes("initial"):
        for code in ("none", "some"):
            for res in ("none", "some") if lab == "open" else ("none",):
                r = ck.entry("exchange", "create_account", label="%s, %s code, %s reservation" % (lab, code, res), fee_oath="none", referral_code=code,
                             reservation=res, vals=((arg("initial_rule"), rule), (arg("tokens"), vec(b1))))
                with given(r.known, r.vals):
                    new = [e for e, p in r.calls("MarginAccount", "new")]
                    if not ck.ob("%s: one account is created" % r.id, len(new) == 1 and new[0].g is ONE, r):
                        continue
                    e = new[0]
                    got = e.d["args"]
                    ck.ob("%s: all three levels get the given rule" % r.id, all(x is rule for x in got[:3]), e, str([show(x, 5) for x in got[:3]])[:300])
                    claims = [c for c, p in r.calls("ReferralGenerator")]
                    gens = [c for c in claims if c.d["method"] == "claim_referral_code"]
                    ck.ob("%s: a referral code is claimed exactly if one is given" % r.id, len(claims) == len(gens) == (code == "some") and
                          all(c.g is ONE for c in gens), r)
                    if code == "some":
                        ret = gens[0].d["ret"]
                        want = mk("call", "keccak256_hash", (f(RC, "?"),))
                        h = gens[0].d["args"][0]
                        ck.ob("%s: the claimed code is the hash of the given one" % r.id, isinstance(h, T) and h.op == "call" and h.a[0] == "keccak256_hash" and
                              f(RC, "?") in subterms(h), gens[0], show(h, 5))
                        ck.ob("%s: the account belongs to the code's referral" % r.id, got[3] is eng.some(f(ret, "0")), e, show(got[3], 5))
                    else:
                        ck.ob("%s: no referral" % r.id, isinstance(got[3], T) and got[3].op == "adt" and got[3].a[1] == "None", e, show(got[3], 5))
                    ck.ob("%s: the reserved address is used" % r.id, (f(got[5], "?") is f(arg("reservation"), "?") if res == "some" else is_none(got[5])),
                          e, show(got[5], 4))
                    ck.ob("%s: the new account is returned" % r.id, r.ret is e.d["ret"], r, show(r.ret, 4))
                    account = mk("addr", e.d["ret"])
                    check_index(ck, r, account, {(k, lv): True for k in alternatives(rule) for lv in LEVELS})
                    # tokens of the caller and of the referral code reach the account
                    dep = [c for c, p in r.calls("MarginAccount", "deposit_collateral_batch")]
                    rest = [c for c, p in r.calls("MarginAccount") if not c.d["pure"] and c.d["method"] not in ("new", "deposit_collateral_batch", "update")]
                    ck.ob("%s: nothing else is done to the account" % r.id, not rest, r)
                    for c, p in r.calls("MarginAccount"):
                        if c.d["method"] != "new":
                            ck.ob("%s: %s acts on the new account" % (r.id, c.d["method"]), addr(c.d["recv"]) is account, c, show(c.d["recv"], 5))
                    ev = [x for x, p in r.emits("EventAccountCreation")]
                    if ck.ob("%s: the creation is announced" % r.id, len(ev) == 1 and ev[0].g is ONE, r):
                        d = ev[0].d["event"]
                        ck.ob("%s: announced account and referral" % r.id, f(d, "account") is account and f(d, "referral_id") is got[3], ev[0], show(d, 5)[:300])
    funded(ck)
    for res in ("none", "some"):
        new_account(ck, res)


EMPTY = {"collateral_balances": "map", "positions": "map", "active_requests": "map", "virtual_balance": "zero", "valid_requests_start": "zero"}


def new_account(ck, res):
    """a new account is empty, belongs to the authority, and has the given rules and referral"""
    r = ck.entry("account", "new", reservation=res)
    owner, rl, state, address = role_chain(r)
    for lv in LEVELS:
        ck.ob("%s: the rule given for %s" % (r.id, lv), rl.get(lv) is arg(lv), r, show(rl.get(lv), 4))
    for n, k in EMPTY.items():
        v = f(state, n)
        ok = isinstance(v, T) and v.op == "mapnew" if k == "map" else isinstance(v, P) and v is ZERO
        ck.ob("%s: %s starts empty" % (r.id, n), ok, r, show(v, 4))
    ck.ob("%s: the referral given" % r.id, f(state, "referral_id") is arg("referral_id"), r, show(f(state, "referral_id"), 4))
    q = f(state, "requests")
    ck.ob("%s: no request yet" % r.id, q.op == "adt" and all(x is ZERO for x in q.a[3] if isinstance(x, P)), r, show(q, 5))
    if res == "some":
        ck.ob("%s: the reserved address is used" % r.id, address is f(arg("reservation"), "?"), r, show(address, 5))


def funded(ck):
    """every token of the caller and of the referral code is deposited, base tokens are credited"""
    A_, B_ = arg("token_a"), arg("token_b")
    ba, bb, b0, b1 = bucket(A_, num(arg("amount_a"))), bucket(B_, num(arg("amount_b"))), bucket(BASE, num(arg("base_0"))), bucket(BASE, num(arg("base_1")))
    for lab, given_, claimed in (("nothing", [], []), ("base", [b0], []), ("a token", [ba], []), ("a token from the code", [], [ba]), ("base from both", [b0], [b1]),
                                 ("base and tokens from both", [ba, b0], [bb, b1])):
        fs = differ(A_, B_) + tuple(ONE - tm.eqv(x, BASE) for x in (A_, B_))
        for code in ("some",) if claimed else ("none", "some"):
            vals = ((arg("tokens"), vec(*given_)),)
            r = ck.entry("exchange", "create_account", label="%s, %s code" % (lab, code), fee_oath="none", referral_code=code, given=fs, vals=vals)
            for ret in {c.d["ret"] for c, p in r.calls("ReferralGenerator")}:
                vals += ((f(ret, "1"), vec(*claimed)),)
            r = ck.entry("exchange", "create_account", label="%s, %s code" % (lab, code), fee_oath="none", referral_code=code, given=fs, vals=vals)
            with given(r.known, r.vals):
                all_ = given_ + claimed
                base = [b for b in all_ if f(b, "$res") is BASE]
                other = [b for b in all_ if f(b, "$res") is not BASE]
                pool = [c for c, p in r.calls("MarginPool", "deposit")]
                ck.ob("%s: every base token goes to the pool" % r.id, all(c.g is ONE for c in pool) and sorted(c.d["args"][0].id for c in pool) ==
                      sorted(b.id for b in base), r, str([show(c.d["args"][0], 4) for c in pool])[:300])
                acc = [c for c, p in r.calls("MarginAccount", "deposit_collateral_batch")]
                got = [b for c in acc for b in (moved_vec(c.d["args"][0]) or [])]
                ck.ob("%s: every other token goes to the account" % r.id, all(c.g is ONE for c in acc) and sorted(b.id for b in got) == sorted(b.id for b in other), r,
                      str([show(b, 4) for b in got])[:300])
                u = [c for c, p in r.calls("MarginAccount", "update")]
                i = [c for c, p in r.calls("MarginAccount", "get_info")]
                if ck.ob("%s: the account is updated once" % r.id, len(u) == 1 and u[0].g is ONE and i, r):
                    ck.same("%s: base tokens are credited" % r.id, fn_(u[0].d["args"][0], "virtual_balance"),
                            fn_(i[0].d["ret"], "virtual_balance") + sum((fn_(b, "$amt") for b in base), ZERO), u[0])
                for t in {f(b, "$res") for b in other}:
                    cc = f(r.src("Config", "get_info"), "collaterals")
                    ck.must(r, "%s: only configured collateral" % r.id, map_has(cc, t))


def is_none(v):
    return isinstance(v, T) and v.op == "adt" and v.a[1] == "None" or isinstance(v, T) and v is arg("reservation")


def registry(ck):
    """the index answers what is stored, an empty entry if nothing is, and stores exactly the given entry"""
    k, v = arg("access_rule"), arg("permissions")
    r = ck.entry("permission_registry", "get_permissions")
    unchanged(ck, r)
    m = f(arg("self"), "permissions")
    for lv in LEVELS:
        got = f(r.ret, lv)
        want = f(map_at(m, k), lv)
        ck.ob("%s: an entry reads as stored" % r.id, same_under(got, want, map_has(m, k)), r, show(got, 6)[:300])
        ck.ob("%s: a missing entry reads as empty" % r.id, same_under(got, mk("mapnew"), ONE - map_has(m, k)), r, show(got, 6)[:300])
    r = ck.entry("permission_registry", "set_permissions")
    base, w = tm.map_chain(f(r.self1, "permissions"))
    ck.ob("%s: exactly the given entry is stored" % r.id, base is f(r.res_self0, "permissions") and [(a, b, p) for a, b, p in w] == [(k, v, ONE)], r,
          show(f(r.self1, "permissions"), 5)[:300])
    effect_free(ck, r)
