"""C31 token wrapper, C32 fee delegator and fee oath, C40 variable registry and faucet."""
from rules.assets import *
from rules.storage import unchanged, effect_free, changes, mapof, listed, differ, pages
from rules import model
from rules.permissions import OPEN, SHUT, protect

def rounded(a, mode):
    return tm.round_(a, model.STRAT(mode))


FLASH = f(arg("self"), "flash_oath")
BURNER = "BurnRoles"


def chain_roles(t):
    """role settings of a resource under construction: {builder step: arguments}"""
    out = {}
    while isinstance(t, T) and t.op == "call" and t.a[1]:
        out[t.a[0]] = t.a[1][1:]
        t = t.a[1][0]
    return out


def role_of(steps, kind):
    """(who may, who may change that) of one token right"""
    v = steps.get(kind + "_roles")
    v = v[0] if v else None
    v = f(v, "?") if isinstance(v, T) and v.op == "adt" and v.a[1] == "Some" else v
    if not (isinstance(v, T) and v.op == "adt" and len(v.a[3]) == 2):
        return None, None
    d = dict(zip(v.a[2], v.a[3]))
    up = [n for n in d if n.endswith("_updater")]
    return (d[up[0][:-len("_updater")]], d[up[0]]) if len(up) == 1 and up[0][:-len("_updater")] in d else (None, None)


def resource_rights(ck, r, t, what, want):
    """the token has exactly the given rights, and nobody can change them. want: kind -> rule"""
    s = chain_roles(t)
    for kind, rule in want.items():
        w, up = role_of(s, kind)
        ck.ob("%s: %s" % (what, kind), w is rule, r, "rule %s" % (show(w, 8) if w is not None else None))
        ck.ob("%s: %s fixed for ever" % (what, kind), up is SHUT, r, "may be changed by %s" % (show(up, 8) if up is not None else None))
    for k in s:
        if k.endswith("_roles"):
            ck.ob("%s: no other right is granted" % what, k[:-6] in want, r, k)
    ck.ob("%s: starts without supply" % what, "create_with_no_initial_supply" in s, r, str(sorted(s)))


def caller_only(t):
    """the rule that only the component at address t satisfies"""
    return protect(mk("call", "require", (mk("call", "global_caller", (t,)),)))


def moves(r, kind):
    return [(e, p) for e, p in r.ev(kind)]


def one(ck, r, kind, rule, n=1):
    w = moves(r, kind)
    return w if ck.ob("%s: %s" % (r.id, rule), len(w) == n and all(e.g is ONE and not p for e, p in w), r, "%d times" % len(w)) else None


def only(ck, r, *kinds):
    for e, p in r.evs:
        if e.kind in ("take", "put", "mint", "burn", "mintnf", "nfupdate", "lockfee", "setrole", "deposit_account", "emit"):
            ck.ob("%s: moves nothing else" % r.id, e.kind in kinds, e, e.kind)
        if e.kind == "call":
            ck.ob("%s: calls no other component" % r.id, e.d["pure"], e, "%s.%s" % (e.d["bp"], e.d["method"]))


def c31(ck):
    C = "token_wrapper"
    tok = arg("child_token")
    res, amt = f(tok, "$res"), fn_(tok, "$amt")
    r = ck.entry(C, "wrap")
    S = r.res_self0
    inp = map_at(f(S, "inputs"), res)
    ck.must(r, "wrap: a known token", map_has(f(S, "inputs"), res))
    ck.must(r, "wrap: wrapping the token is allowed", boolv(f(inp, "wrappable")))
    m = one(ck, r, "mint", "mints once")
    if m:
        ck.ob("wrap: mints the base token", m[0][0].d["res"] is BASE, m[0][0])
        ck.same("wrap: mints exactly what was handed in", num(m[0][0].d["amount"]), amt, m[0][0])
    is_bucket(ck, "wrap: pays out what was minted", r.ret, BASE, amt, r)
    kept(ck, r, res, lambda v: fn_(v, "$amt") + amt)
    only(ck, r, "mint", "put")
    ck.accepts(r, "wrap")
    # unwrap
    pay, cres = arg("parent_token"), arg("child_resource")
    r = ck.entry(C, "unwrap")
    S = r.res_self0
    out = rounded(fn_(pay, "$amt"), "ToZero")
    ck.must(r, "unwrap: only the base token is taken", eqv(f(pay, "$res"), BASE))
    ck.must(r, "unwrap: a known token", map_has(f(S, "inputs"), cres))
    b = one(ck, r, "burn", "burns once")
    if b:
        ck.ob("unwrap: burns the whole payment", b[0][0].d["bucket"] is pay, b[0][0])
    v = f(map_at(f(S, "inputs"), cres), "vault")
    is_bucket(ck, "unwrap: pays the asked token, rounded down", r.ret, f(v, "$res"), out, r)
    kept(ck, r, cres, lambda v: fn_(v, "$amt") - out)
    only(ck, r, "burn", "take")
    ck.accepts(r, "unwrap")
    # flash loans
    r = ck.entry(C, "flash_loan")
    S, a = r.res_self0, num(arg("amount"))
    oath = mk("resof", f(S, "flash_oath"))
    is_bucket(ck, "loan: pays the asked amount", f(r.ret, "0"), BASE, a, r)
    is_bucket(ck, "loan: with an oath over the same amount", f(r.ret, "1"), oath, a, r)
    w = one(ck, r, "mint", "mints the loan and its oath", 2)
    if w:
        ck.ob("loan: the loan and the oath", {e.d["res"] for e, p in w} == {BASE, oath} and all(not (num(e.d["amount"]) - a).d for e, p in w), r)
    changes(ck, r.id, r, {})
    only(ck, r, "mint")
    ck.accepts(r, "loan")
    r = ck.entry(C, "repay_flash_loan")
    ob, tk = arg("flash_oath"), arg("token")
    due = fn_(ob, "$amt")
    ck.must(r, "repayment: a genuine oath", eqv(f(ob, "$res"), mk("addr", FLASH)))
    ck.must(r, "repayment: in the base token", eqv(f(tk, "$res"), BASE))
    ck.must(r, "repayment: covers the oath", ONE - lt0(fn_(tk, "$amt") - due))
    up = rounded(due, "ToPositiveInfinity")
    w = one(ck, r, "burn", "burns twice", 2)
    if w:
        got = {e.d["res"]: e for e, p in w}
        ck.ob("repayment: burns the oath and the repaid tokens", set(got) == {f(ob, "$res"), f(tk, "$res")}, r, str([show(k, 4) for k in got]))
        for k, want in ((f(ob, "$res"), due), (f(tk, "$res"), up)):
            if k in got:
                ck.same("repayment: burned in full", num(got[k].d["amount"]), want, got[k])
    is_bucket(ck, "repayment: the rest is returned", r.ret, f(tk, "$res"), fn_(tk, "$amt") - up, r)
    changes(ck, r.id, r, {})
    only(ck, r, "burn", "take")
    ck.accepts(r, "repayment")
    # settings and reads
    k = arg("resource")
    for known in (True, False):
        has = map_has(f(arg("self"), "inputs"), k)
        r = ck.entry(C, "add_input", label="known" if known else "new", given=(has if known else ONE - has,))
        S = r.res_self0
        only(ck, r)
        ck.accepts(r, r.id)
        if known:
            unchanged(ck, r)
            continue
        with given(r.known, r.vals):
            n = fn_(f(S, "input_list"), "pointer", "u64")
            changes(ck, r.id, r, {"input_list": {"kvs": ("map", [(n, k, ONE)]), "pointer": n + 1}, "inputs": ("map", [(k, map_at(f(r.self1, "inputs"), k), ONE)])})
            i = map_at(f(r.self1, "inputs"), k)
            ck.ob("new token: wrappable", boolv(f(i, "wrappable")) is ONE, r)
            ck.ob("new token: its own empty vault", f(i, "vault.$res") is k and not fn_(i, "vault.$amt").d, r, show(f(i, "vault"), 5))
    r = ck.entry(C, "update_wrappable")
    k = arg("child_resource")
    S = r.res_self0
    ck.must(r, "setting: a known token", map_has(f(S, "inputs"), k))
    changes(ck, r.id, r, {"inputs": ("map", [(k, map_at(f(r.self1, "inputs"), k), ONE)])})
    ck.accepts(r, "setting")
    changes(ck, r.id + ": entry", r, {"wrappable": boolv(arg("wrappable"))}, map_at(f(S, "inputs"), k), map_at(f(r.self1, "inputs"), k))
    only(ck, r)
    r = ck.entry(C, "get_inputs")
    unchanged(ck, r)
    only(ck, r)
    ks = f(arg("self"), "input_list.kvs")
    for r, idx in pages(ck, C, "get_inputs", f(arg("self"), "input_list.pointer"), ks):
        with given(r.known, r.vals):
            e = entries(r.ret)
            if ck.ob("%s: exactly the tokens of the page are listed" % r.id, e is not None and len(e) == len(idx) and all(g is ONE for x, g in e), r, show(r.ret, 6)[:400]):
                for i, (x, g_) in zip(idx, e):
                    kk = map_at(ks, C_(i))
                    v = map_at(f(r.res_self0, "inputs"), kk)
                    ck.ob("%s: in order" % r.id, f(x, "0") is kk, r, show(x, 5))
                    ck.ob("%s: its setting" % r.id, boolv(f(x, "1")) is boolv(f(v, "wrappable")), r, show(x, 5))
                    ck.same("%s: its balance" % r.id, fn_(x, "2"), fn_(v, "vault.$amt"), r)
    # who may issue and destroy the oath
    r = ck.entry(C, "new")
    owner, rl, st, address = role_chain(r)
    ck.ob("wrapper: initially no token", fn_(f(st, "input_list"), "pointer", "u64") is ZERO or not fn_(f(st, "input_list"), "pointer", "u64").d, r)
    who = caller_only(this_of(address))
    resource_rights(ck, r, f(st, "flash_oath"), "flash oath", {"mint": who, "burn": who, "deposit": SHUT})
    ck.must(r, "wrapper: holds the base token's authority", eqv(f(arg("authority_token"), "$res"), K("_BASE_AUTHORITY_RESOURCE")))
    for m, kinds in (("deposit_authority", ("put",)), ("withdraw_authority", ("take",))):
        r = ck.entry(C, m)
        only(ck, r, *kinds)
        have = fn_(r.res_self0, "authority_token.$amt")
        if m == "deposit_authority":
            changes(ck, r.id, r, {"authority_token": {"$amt": have + fn_(arg("token"), "$amt")}})
        else:
            changes(ck, r.id, r, {"authority_token": {"$amt": ZERO}})
            is_bucket(ck, "%s: hands out the authority" % r.id, r.ret, f(r.res_self0, "authority_token.$res"), have, r)


def C_(n):
    return tm.C(n)


def this_of(address):
    """the address that belongs to a reservation: allocation gives (reservation, address)"""
    if isinstance(address, T) and address.op == "fld":
        return f(address.a[0], "1")
    return f(address, "1") if address is not None else None


def kept(ck, r, key, amount):
    """only the vault stored under key changes, to the given amount"""
    S = r.res_self0
    old = map_at(f(S, "inputs"), key)
    new = map_at(f(r.self1, "inputs"), key)
    changes(ck, r.id, r, {"inputs": ("map", [(key, new, ONE)])})
    changes(ck, r.id + ": entry", r, {"vault": {"$amt": amount(f(old, "vault"))}}, old, new)


def c32(ck):
    C = "fee_delegator"
    S = arg("self")
    vb, ml, pm = fn_(S, "virtual_balance"), fn_(S, "max_lock"), fn_(S, "price_multiplier")
    a = num(arg("amount"))
    r = ck.entry(C, "lock_fee")
    S = r.res_self0
    value = mulx(mulx(num(mk("call", "get_usd_price", ())), pm), a)
    cont = boolv(f(S, "is_contingent"))
    w = moves(r, "lockfee")
    ck.ob("lock: the fee is locked once", len(w) in (1, 2) and not (tm._sum([e.g for e, p in w]) - ONE).d and not any(p for e, p in w), r)
    for e, p in w:
        ck.same("lock: exactly the asked amount", num(e.d["amount"]), a, e)
        ck.ob("lock: contingent exactly if configured", e.g is (cont if e.d["how"] == "lock_contingent_fee" else ONE - cont), e, show(e.g, 4))
        ck.ob("lock: from the delegator's own vault", e.d["vault"] is f(S, "vault"), e)
    oath = mk("resof", f(S, "fee_oath"))
    m = one(ck, r, "mint", "issues the oath once")
    if m:
        ck.ob("lock: issues the fee oath", m[0][0].d["res"] is oath, m[0][0])
        ck.same("lock: an oath over the locked value", num(m[0][0].d["amount"]), value, m[0][0])
    is_bucket(ck, "lock: hands out the oath", r.ret, oath, value, r)
    changes(ck, r.id, r, {"virtual_balance": vb + value, "vault": {"$amt": fn_(S, "vault.$amt") - a}})
    sup = [x for e, p in r.ev("assert") for x in tm.subterms(e.d["cond"]) if isinstance(x, T) and x.op == "supply"]
    ok = [x for x in dict.fromkeys(sup) if x.a[0] is f(S, "fee_oath")]
    if ck.ob("lock: the outstanding oaths are counted after issuing", len(ok) == 1 and "mint" in show(ok[0].a[1], 3), r, str([show(x, 4) for x in ok])):
        ck.must(r, "lock: outstanding oaths stay within the limit", ONE - lt0(ml - num(ok[0])))
    only(ck, r, "lockfee", "mint")
    ck.accepts(r, "lock")
    for n in ("max_lock", "price_multiplier", "virtual_balance"):
        r = ck.entry(C, "update_" + n)
        v = num(arg(n))
        ck.must(r, "%s: not negative" % r.id, ONE - lt0(v))
        ck.accepts(r, r.id)
        changes(ck, r.id, r, {n: v})
        effect_free(ck, r)
    r = ck.entry(C, "update_is_contingent")
    changes(ck, r.id, r, {"is_contingent": boolv(arg("is_contingent"))})
    effect_free(ck, r)
    r = ck.entry(C, "get_virtual_balance")
    unchanged(ck, r)
    effect_free(ck, r)
    ck.same("%s: as stored" % r.id, num(r.ret), vb, r)
    r = ck.entry(C, "get_info")
    unchanged(ck, r)
    effect_free(ck, r)
    for i, v in enumerate((fn_(S, "vault.$amt"), vb, ml, pm)):
        ck.same("%s: as stored" % r.id, fn_(r.ret, str(i)), v, r)
    ck.ob("%s: as stored" % r.id, boolv(f(r.ret, "4")) is cont, r)
    t = arg("token")
    r = ck.entry(C, "deposit")
    ck.accepts(r, r.id, eqv(f(t, "$res"), f(S, "vault.$res")))
    changes(ck, r.id, r, {"vault": {"$amt": fn_(S, "vault.$amt") + fn_(t, "$amt")}})
    only(ck, r, "put")
    r = ck.entry(C, "withdraw")
    out = rounded(a, "ToZero")
    changes(ck, r.id, r, {"vault": {"$amt": fn_(S, "vault.$amt") - out}})
    is_bucket(ck, "%s: pays the amount, rounded down" % r.id, r.ret, f(S, "vault.$res"), out, r)
    only(ck, r, "take")
    r = ck.entry(C, "new")
    owner, rl, st, address = role_chain(r)
    resource_rights(ck, r, f(st, "fee_oath"), "fee oath", {"mint": caller_only(this_of(address)), "burn": protect(mk("call", "require", (AUTHORITY,))), "deposit": SHUT})
    ck.ob("initially nothing is owed", not fn_(st, "virtual_balance").d, r)
    for n in ("max_lock", "price_multiplier"):
        ck.ob("initial settings are valid", lt0(fn_(st, n)) is ZERO, r, show(f(st, n), 3))


def c40(ck):
    C = "env_registry"
    S = f(arg("self"), "variables")
    ka, kb, kc = arg("key_a"), arg("key_b"), arg("key_c")
    EMPTY = mk("str", "")
    for n, ks in enumerate(([], [ka], [ka, kb], [ka, ka])):
        lab = ("none", "one", "two", "one twice")[n]
        r = ck.entry(C, "get_variables", label=lab, given=differ(ka, kb), vals=((arg("keys"), vec(*ks)),))
        with given(r.known, r.vals):
            unchanged(ck, r)
            only(ck, r)
            base, w = tm.map_chain(r.ret)
            ck.ob("%s: exactly the asked names" % r.id, base.op == "mapnew" and {k for k, v, p in w} == set(ks) and all(p is ONE for k, v, p in w), r, show(r.ret, 6)[:400])
            for k in ks:
                v = map_at(r.ret, k)
                ck.ob("%s: the stored value" % r.id, same_under(v, map_at(S, k), map_has(S, k)), r, show(v, 6)[:300])
                ck.ob("%s: empty if there is none" % r.id, same_under(v, blank(v), ONE - map_has(S, k)), r, show(v, 6)[:300])
        vs = [arg("value_%d" % i) for i in range(len(ks))]
        r = ck.entry(C, "set_variables", label=lab, given=differ(ka, kb), vals=((arg("variables"), vec(*[eng.tup(k, v) for k, v in zip(ks, vs)])),))
        with given(r.known, r.vals):
            only(ck, r)
            if ks:
                changes(ck, r.id, r, {"variables": ("map", [(k, v, ONE) for k, v in dict(zip(ks, vs)).items()])})
            else:
                unchanged(ck, r)
        r = ck.entry(C, "remove_variables", label=lab, given=differ(ka, kb), vals=((arg("keys"), vec(*ks)),))
        with given(r.known, r.vals):
            only(ck, r)
            base, w = tm.map_chain(f(r.self1, "variables"))
            ck.ob("%s: exactly the named ones are removed" % r.id, base is S and {k for k, v, p in w} == set(ks) and all(p is ZERO or not p.d for k, v, p in w), r,
                  show(f(r.self1, "variables"), 6)[:400])
            if r.self1 is not r.res_self0:
                ck.ob("%s: nothing else" % r.id, set(dict(r.self1.a[1])) == {"variables"}, r)
    # whatever the number of variables
    for m in ("get_variables", "set_variables", "remove_variables"):
        r = ck.entry(C, m)
        only(ck, r)
        if m == "get_variables":
            unchanged(ck, r)
        elif r.self1 is not r.res_self0:
            ck.ob("%s: only the variables change" % r.id, r.self1.op == "upd" and set(dict(r.self1.a[1])) == {"variables"}, r)


def blank(v):
    """the empty text among the alternatives of v"""
    for x in ([y for y, g in v.a[0]] if v.op == "gate" else [v]):
        if x.op in ("str", "const") and x.a[0] == "" or show(x, 3) == "''":
            return x
    return mk("never")


# ---- test-token faucet
def is_owner(t):
    return isinstance(t, T) and t.op == "adt" and t.a[0].split("::")[-1] == "FallToOwner" and t.a[1] == "OWNER"


def c42(ck):
    C_, S = "faucet", f(arg("self"), "mint_amounts")
    ra, rb = arg("token_a"), arg("token_b")
    am = {ra: num(arg("amount_a")), rb: num(arg("amount_b"))}
    r = ck.entry(C_, "update_mint_amount")
    only(ck, r)
    changes(ck, r.id, r, {"mint_amounts": ("map", [(arg("resource"), num(arg("amount")), ONE)])})
    r = ck.entry(C_, "admin_mint_token")
    only(ck, r, "mint")
    still(ck, r)
    w = one(ck, r, "mint", "mints once")
    if w:
        ck.ob("%s: of the named token" % r.id, w[0][0].d["res"] is arg("resource"), w[0][0])
        ck.same("%s: the given amount" % r.id, num(w[0][0].d["amount"]), num(arg("amount")), w[0][0])
    is_bucket(ck, "%s: handed out" % r.id, r.ret, arg("resource"), num(arg("amount")), r)
    for n, l in (("none", []), ("one", [ra]), ("two", [ra, rb])):
        with given(differ(ra, rb)):
            m = mapof(*[(k, am[k]) for k in l])
        r = ck.entry(C_, "free_tokens", label=n, given=differ(ra, rb), vals=((S, m),))
        with given(r.known, r.vals):
            only(ck, r, "mint")
            still(ck, r)
            handed(ck, r, "tokens handed out", entries(r.ret), lambda b: (f(b, "$res"), fn_(b, "$amt")), {k: am[k] for k in l})
            handed(ck, r, "tokens minted", [(e, e.g) for e, p in r.ev("mint") if not p], lambda e: (e.d["res"], num(e.d["amount"])), {k: am[k] for k in l})
    r = ck.entry(C_, "free_tokens")
    only(ck, r, "mint")
    still(ck, r)
    # how it is set up
    r = ck.entry(C_, "new")
    comp_ = f(r.ret, "0")
    st = [t.a[1][0] for t in subterms(comp_) if t.op == "call" and t.a[0] == "instantiate"]
    owner, roles_, x, address = role_chain_of(comp_)
    if ck.ob("%s: one component is created" % r.id, len(st) == 1, r):
        base, w = tm.map_chain(f(st[0], "mint_amounts"))
        ck.ob("%s: the tokens are listed" % r.id, base.op == "mapnew" and len(w) >= 1, r)
        for k, v, p in w:
            man = k.a[0] if k.op == "addr" else k
            s = chain_roles(man)
            nm = "token %d" % w.index((k, v, p))
            ck.ob("%s: %s starts without supply" % (r.id, nm), "create_with_no_initial_supply" in s, r, str(sorted(s)))
            ck.ob("%s: %s may be minted by the faucet only" % (r.id, nm), role_of(s, "mint")[0] is caller_only(this_of(address)), r, show(man, 6)[:300])
            for kind in [q[:-6] for q in s if q.endswith("_roles")]:
                who, up = role_of(s, kind)
                ck.ob("%s: %s: %s rights change by the owner only" % (r.id, nm, kind), up is not None and (up is SHUT or is_owner(up)), r)
                ck.ob("%s: %s: %s is not open to all" % (r.id, nm, kind), who is not OPEN, r)
            ck.must(r, "%s: %s: the amount is not negative" % (r.id, nm), ONE - lt0(num(v)))


def still(ck, r):
    ck.ob("%s: the stored amounts stay" % r.id, r.self1 is r.res_self0, r)


def handed(ck, r, what, got, split, want):
    """exactly the tokens with a positive amount, each once and in full. got: [(item, guard)]"""
    if not ck.ob("%s: %s are known" % (r.id, what), got is not None, r):
        return
    for k, a in want.items():
        pos = ONE - lt0(a) - tm.eq0(a)
        mine = [(split(x), g) for x, g in got if split(x)[0] is k]
        ck.same("%s: %s: each token with a positive amount, once" % (r.id, what), sum((g for x, g in mine), ZERO), pos, r)
        for x, g in mine:
            ck.same("%s: %s: in the configured amount" % (r.id, what), x[1], a, r, g)
    ck.ob("%s: %s: nothing else" % (r.id, what), all(split(x)[0] in want for x, g in got), r)
