"""C01, C02: published access tables."""
from rules.authlib import *

AUTH = frozenset(["authority"])
OWN = frozenset(["_owner_"])
ADM = frozenset(["_owner_", "admin"])


def role(*r):
    return frozenset(r)


# strongest set of roles that may call each state-changing method
SPEC = {
    "account": {m: AUTH for m in ("update", "update_referral_id", "deposit_collateral_batch", "withdraw_collateral_batch")},
    "config": {m: AUTH for m in ("update_exchange_config", "update_pair_configs", "update_collateral_configs",
                                 "remove_collateral_config")},
    "pool": {m: AUTH for m in ("update", "deposit", "withdraw")},
    "fee_distributor": {m: AUTH for m in ("distribute", "update_protocol_virtual_balance",
                                          "update_treasury_virtual_balance")},
    "permission_registry": {"set_permissions": AUTH},
    "referral_generator": {m: AUTH for m in ("add_allocation", "create_referral_codes", "claim_referral_code",
                                             "create_referral_codes_from_allocation")},
    "oracle": {"get_prices_with_auth": AUTH, "push_and_get_prices_with_auth": AUTH, "add_key": OWN, "remove_key": OWN,
               "remove_price": OWN, "push_and_get_prices": role("push_user"), "get_prices": role("get_user")},
    "fee_delegator": {"update_virtual_balance": AUTH, "update_max_lock": ADM, "update_price_multiplier": ADM,
                      "update_is_contingent": ADM, "deposit": role("depositor"), "withdraw": role("withdrawer"),
                      "lock_fee": role("user")},
    "env_registry": {"set_variables": OWN, "remove_variables": OWN},
    "token_wrapper": {"deposit_authority": OWN, "withdraw_authority": OWN, "add_input": OWN, "update_wrappable": ADM,
                      "wrap": role("wrap_user"), "unwrap": role("unwrap_user"), "flash_loan": role("flash_user"),
                      "repay_flash_loan": role("flash_user")},
    "faucet": {"free_tokens": role("user"), "update_mint_amount": OWN, "admin_mint_token": OWN},
}
# who may reassign the role
UPD = {
    "account": {"authority": role(), "level_1": AUTH, "level_2": AUTH, "level_3": AUTH},
    "oracle": {"authority": role(), "push_user": role(), "get_user": role()},
    "fee_delegator": {"authority": role(), "admin": OWN, "depositor": OWN, "withdrawer": OWN, "user": OWN},
    "token_wrapper": {r: OWN for r in ("admin", "wrap_user", "unwrap_user", "flash_user")},
    "faucet": {"user": OWN},
    "env_registry": {},
}
# initial assignment of the role: "authority" (badge), "owner", or "any"
INIT = {
    "fee_delegator": {"admin": "owner", "depositor": "owner", "withdrawer": "owner"},
    "token_wrapper": {"admin": "owner"},
}

UP, UA = OWN, frozenset(["_owner_", "user_admin"])
X_SPEC = {}
for m in ("deposit_authority", "withdraw_authority", "signal_upgrade", "update_exchange_config", "update_pair_configs",
          "update_collateral_configs", "remove_collateral_config"):
    X_SPEC[m] = OWN
for r, ms in {
    "treasury_admin": ["collect_treasury"], "fee_delegator_admin": ["collect_fee_delegator"],
    "referral_admin": ["mint_referral", "mint_referral_with_allocation", "update_referral", "add_referral_allocation"],
    "protocol_swap_user": ["swap_protocol_fee"], "liquidity_user": ["add_liquidity", "remove_liquidity"],
    "referral_user": ["create_referral_codes", "create_referral_codes_from_allocation", "collect_referral_rewards"],
    "account_creation_user": ["create_account"],
    "account_management_user": ["create_recovery_key", "add_auth_rule", "set_level_1_auth", "set_level_2_auth",
                                "set_level_3_auth", "add_collateral"],
    "remove_collateral_request_user": ["remove_collateral_request"],
    "margin_order_request_user": ["margin_order_request", "margin_order_tp_sl_request"],
    "cancel_request_user": ["cancel_requests"], "keeper_process": ["process_request"],
    "keeper_swap_debt": ["swap_debt"], "keeper_liquidate": ["liquidate"],
    "keeper_auto_deleverage": ["auto_deleverage"], "keeper_update_pairs": ["update_pairs"],
}.items():
    for m in ms:
        X_SPEC[m] = role(r)
X_ADMIN = ("user_admin", "referral_admin", "treasury_admin", "fee_delegator_admin")
X_USER = ("protocol_swap_user", "liquidity_user", "referral_user", "account_creation_user", "account_management_user",
          "remove_collateral_request_user", "margin_order_request_user", "cancel_request_user")
X_KEEPER = ("keeper_process", "keeper_swap_debt", "keeper_liquidate", "keeper_auto_deleverage", "keeper_update_pairs")


def sh(s):
    return "public" if s is None else (",".join(sorted(s)) if isinstance(s, frozenset) else str(s))


def method_bodies(crate):
    return {b.name: b for b in F().bodies.values()
            if b.crate == crate and b.kind == "fn" and b.impl and not b.tr and "Stub" not in b.impl and
            b.impl.split("<")[0].split("::")[-1] == BP[crate]}


def table_rules(ck, crate, spec):
    roles, methods = tables(crate)
    tb = body_by(crate, "method_auth_template")
    w = "%s: published method table" % tb.file.replace(facts.REPO + "/", "")
    for m, want in spec.items():
        got = methods.get(m, "absent")
        if got == "absent" and m not in method_bodies(crate):
            ck.ob("%s.%s is published" % (BP[crate], m), False, w, "the method is gone")
            continue
        ck.ob("%s.%s callable only by %s" % (BP[crate], m, sh(want)), got == want, w,
              "published access: %s" % sh(got))
    # every other method of the interface is public, so must not be able to change state
    mb = method_bodies(crate)
    for m, got in sorted(methods.items()):
        if m in spec:
            continue
        b = mb.get(m)
        ty = b.types[b.locals[1]] if b is not None and b.n else ""
        ck.ob("%s.%s (not in the protected list) cannot change state or move assets" % (BP[crate], m),
              b is not None and readonly(ck, crate, b), w if b is None else "%s:%s %s" % (b.file, b.line, m),
              "a publicly callable method has effects")
    return roles, methods


EFFECTS = ("take", "put", "mint", "burn", "mintnf", "nfupdate", "authorize", "setrole", "deposit_account", "lockfee",
           "emit", "unk", "engine")


def readonly(ck, crate, b):
    r = ck.entry(crate, b.name)
    for e, p in r.evs:
        if e.kind in EFFECTS or (e.kind == "call" and not e.d["pure"]):
            return False
    return r.res.selfroot is None or r.self1 is r.res_self0


def c01(ck):
    for crate, spec in SPEC.items():
        roles, methods = table_rules(ck, crate, spec)
        w = "%s published role table" % BP[crate]
        upd = UPD.get(crate, {"authority": role()})
        for r, want in upd.items():
            ck.ob("%s role %s reassignable only by %s" % (BP[crate], r, sh(want) or "nobody"),
                  roles.get(r, "absent") == want, w, "updaters: %s" % sh(roles.get(r, "absent")))
        for r in roles:
            if r not in upd:
                ck.ob("%s role %s is a known role" % (BP[crate], r), False, w, "new role %s" % r)
        e, owner, rl = role_state(crate)
        ck.use(e)
        for r in roles:
            k = kind_of(rl.get(r)) if r in rl else "unassigned"
            if r == "authority":
                ck.ob("%s role authority is the authority badge" % BP[crate], k == "authority", e, "assigned: " + k)
            elif r in INIT.get(crate, {}):
                ck.ob("%s role %s starts with the owner" % (BP[crate], r), k in (INIT[crate][r], "authority"), e,
                      "assigned: " + k)
        if crate == "account":
            ck.ob("account owner role is fixed to the authority badge",
                  owner.op == "adt" and owner.a[1] == "Fixed" and is_req(owner.a[3][0], "_AUTHORITY_RESOURCE"), e,
                  show(owner, 6))
            for i in (1, 2, 3):
                ck.ob("account level %d rule is the one given at creation" % i,
                      rl.get("level_%d" % i) is mk("arg", "level_%d" % i), e, show(rl.get("level_%d" % i), 4))
            ft = func_table("account")
            ck.ob("accounts can only be created with the authority badge",
                  isinstance(ft, dict) and "new" in ft and is_req(ft["new"], "_AUTHORITY_RESOURCE"),
                  "account function access table", str(ft)[:200])
        elif crate == "faucet":
            pass
        else:
            ck.ob("%s is owned by the given owner role" % BP[crate], owner is mk("arg", "owner_role"), e, show(owner, 5))


def c02(ck):
    roles, methods = table_rules(ck, "exchange", X_SPEC)
    w = "Exchange published role table"
    for r in X_ADMIN + X_KEEPER:
        ck.ob("role %s reassignable only by the owner" % r, roles.get(r) == OWN, w, sh(roles.get(r, "absent")))
    for r in X_USER:
        ck.ob("role %s reassignable only by the owner or the user admin" % r, roles.get(r) == UA, w,
              sh(roles.get(r, "absent")))
    for r in roles:
        ck.ob("role %s is a known role" % r, r in X_ADMIN + X_USER + X_KEEPER, w)
    e, owner, rl = role_state("exchange")
    ck.use(e)
    ck.ob("exchange is owned by the given owner role", owner is mk("arg", "owner_role"), e, show(owner, 5))
    for r in X_ADMIN:
        ck.ob("role %s starts with the owner" % r, r in rl and kind_of(rl[r]) == "owner", e, show(rl.get(r), 5))
    for r in X_USER + X_KEEPER:
        ck.ob("role %s starts open" % r, r in rl and kind_of(rl[r]) == "any", e, show(rl.get(r), 5))
