"""C03 (account owners authorise account operations), C04 (authority badge containment)."""
from rules.xlib import *


def oath_cases(m):
    b = find("exchange", m)
    return [{"fee_oath": "none"}, {"fee_oath": "some"}] if "fee_oath" in b.names.values() else [{}]


def c03(ck):
    for m, lv in USER_ACCOUNT.items():
        for asm in oath_cases(m):
            r = ck.entry("exchange", m, **asm)
            want = role_rule(lv)
            ac = [e for e, p in r.ev("authcheck") if not p and e.g is ONE and e.d["rule"] is want]
            ck.ob("%s: success requires the caller to satisfy the account's level-%d rule" % (r.id, lv), ac, r,
                  "rules checked: %s" % [(show(e.d["rule"], 6), show(e.g, 3)) for e, _ in r.ev("authcheck")])
            # and acts on no other account
            for e, p in r.calls("MarginAccount"):
                ck.ob("%s: %s acts on the authorised account" % (r.id, e.d["method"]), e.d["recv"] is acct(), e,
                      show(e.d["recv"], 5))
            for e, p in r.ev("setrole"):
                ck.ob("%s: account rule changed on the authorised account" % r.id, e.d["recv"] is acct(), e,
                      show(e.d["recv"], 5))
    # who may change account rules, and to what
    for m in MUTATORS:
        b = find("exchange", m)
        if m in ("create_recovery_key", "add_auth_rule", "set_level_1_auth", "set_level_2_auth", "set_level_3_auth"):
            continue
        r = ck.entry("exchange", m)
        sr = r.ev("setrole")
        ck.ob("%s leaves account rules alone" % m, not sr, sr[0][0] if sr else r)
    for lv in (1, 2, 3):
        r = ck.entry("exchange", "set_level_%d_auth" % lv, fee_oath="none")
        roleset(ck, r, lv, lambda old: arg("rule"))
        r = ck.entry("exchange", "add_auth_rule", fee_oath="none", level=C(lv))
        roleset(ck, r, lv, lambda old: extended(old, arg("additional_rule")))
    r = ck.entry("exchange", "add_auth_rule", fee_oath="none")
    lvl = num(arg("level"), "u8")
    ck.must(r, "add_auth_rule: only levels 1, 2 and 3", eq0(lvl - 1, True) + eq0(lvl - 2, True) + eq0(lvl - 3, True))
    r = ck.entry("exchange", "create_recovery_key", fee_oath="none")
    keys = [e for e, p in r.ev("mintnf")]
    ck.ob("create_recovery_key: mints one recovery key and returns it",
          len(keys) == 1 and keys[0].g is ONE and keys[0].d["rm"] is mk("resmgr", RECOVERY) and
          r.ret.op == "nfbucket" and r.ret.a[0] is keys[0].d["rm"] and r.ret.a[1] is keys[0].d["data"],
          keys[0] if keys else r, show(r.ret, 5))
    if keys:
        kid = [t for t in subterms(r.ev("setrole")[0][0].d["rule"]) if t.op == "nfm" and t.a[0] == "global_id"] \
            if r.ev("setrole") else []
        ok = len(kid) == 1 and kid[0].a[1].op == "nfm" and kid[0].a[1].a[1] is r.ret
        ck.ob("create_recovery_key: the key whose id is admitted is the one minted", ok, r, str(kid)[:300])
        if ok:
            roleset(ck, r, 1, lambda old: extended(old, mk("call", "require", (kid[0],)), wrap=False))


def protected(old):
    return variant(old, "Protected", ["AllowAll", "DenyAll", "Protected"])


def extended(old, node, wrap=True):
    """the rule that admits whoever `old` admitted explicitly, or `node`"""
    pr = protected(old)
    n0 = f(old, "@Protected.0")
    return pr, node, mk("call", "or", (n0, node))


def unrule(v):
    """strip AccessRule::Protected(..)/conversions around a rule node"""
    while isinstance(v, T) and v.op == "adt" and v.a[1] == "Protected":
        v = v.a[3][0]
    return v


def gated(v):
    v = unrule(v)
    return [(unrule(w), g) for w, g in v.a[0]] if isinstance(v, T) and v.op == "gate" else [(v, ONE)]


def roleset(ck, r, lv, want):
    sr = r.ev("setrole")
    nm = mk("str", "level_%d" % lv)
    ck.ob("%s: sets exactly the level-%d rule" % (r.id, lv),
          len(sr) == 1 and sr[0][0].d["role"] is nm and sr[0][0].g is ONE and not sr[0][1], sr[0][0] if sr else r,
          str([(show(e.d["role"]), show(e.g, 4)) for e, _ in sr]))
    if len(sr) != 1:
        return
    got = sr[0][0].d["rule"]
    old = role_rule(lv)
    w = want(old)
    if isinstance(w, tuple):
        pr, a, b = w
        acc = {}
        for v, g in gated(got):
            acc[v] = acc.get(v, ZERO) + g
        ok = set(acc) <= {a, b} and acc.get(b) is pr and acc.get(a) is ONE - pr
        ck.ob("%s: an existing rule is extended, an open or closed one replaced" % r.id, ok, sr[0][0], show(got, 8)[:900])
    else:
        ck.ob("%s: the new rule is the one given" % r.id, unrule(got) is unrule(w), sr[0][0], show(got, 5))


# ---------------------------------------------------------------- authority badge
PROT = {"MarginAccount": ("update", "update_referral_id", "deposit_collateral_batch", "withdraw_collateral_batch"),
        "Config": (), "MarginPool": ()}
ATTO = C(1) / (10 ** 18)


def c04(ck):
    vault = f(arg("self"), "authority_token")
    for m in MUTATORS:
        r = ck.entry("exchange", m)
        w = r
        for e, p in r.ev("take"):
            if subplace(e.d.get("place"), "authority_token"):
                ck.ob("%s: authority badges leave the exchange only through the owner's withdrawal" % m,
                      m == "withdraw_authority", e)
        for e, p in r.ev("authorize"):
            ck.ob("%s: badge proof comes from the exchange's own vault" % m, e.d["vault"] is vault or
                  isinstance(e.d["vault"], T) and "authority_token" in show(e.d["vault"], 3), e, show(e.d["vault"], 4))
            ck.ob("%s: badge proof has the smallest amount" % m, e.d["amount"] is ATTO or
                  (e.d["amount"].const() or 2) <= 1, e, show(e.d["amount"]))
        for e, p in r.calls():
            bp, rv = e.d["bp"], e.d["recv"]
            if rv.op == "blueprint":
                ok = bp == "MarginAccount" and e.d["method"] == "new"
            elif bp == "MarginAccount":
                ok = rv.op == "checked" and rv.a[0] == "MarginAccount"
            else:
                ok = bp in COMP and rv is comp(bp)
            ck.ob("%s: %s.%s is called on a trusted component" % (m, bp, e.d["method"]), ok, e,
                  "receiver %s" % show(rv, 5))
        for e, p in r.ev("deposit_account"):
            a = e.d["account"]
            ck.ob("%s: payout target is a genuine account component" % m, a.op == "checked" and a.a[0] == "Account", e,
                  show(a, 4))
        for e, p in r.ev("unk") + r.ev("engine"):
            ck.ob("%s: no unidentified call while the badge proof is live" % m, False, e,
                  str({k: show(v, 3) if isinstance(v, (T, P, tuple)) else v for k, v in e.d.items()})[:300])
    r = ck.entry("exchange", "deposit_authority")
    puts = [e for e, p in r.ev("put")]
    ck.ob("deposit_authority stores the given badges", len(puts) == 1 and puts[0].d["bucket"] is arg_bucket(r), r,
          str([show(e.d.get("bucket"), 3) for e in puts]))
    r = ck.entry("exchange", "withdraw_authority")
    e, owner, rl = role_state("exchange")
    ck.use(e)
    need = eqv(f(arg("authority_token"), "$res"), AUTHORITY)
    ck.must(e, "the exchange is created only with the authority badge in its vault", need)


def subplace(pl, name):
    return pl is not None and name in str(pl)


def arg_bucket(r):
    for i in range(2, r.b.n + 1):
        if "Bucket" in r.b.types[r.b.locals[i]]:
            return mk("arg", r.b.names[i])
