"""Shared vocabulary for rules over the exchange's entry points."""
from rt import *
from rules.authlib import *

CONST = "common::consts::"


def K(name):
    return mk("const", "named", CONST + name)


AUTHORITY, BASE, LP, PROTOCOL = K("_AUTHORITY_RESOURCE"), K("_BASE_RESOURCE"), K("_LP_RESOURCE"), K("_PROTOCOL_RESOURCE")
REFERRAL, KEEPER, RECOVERY, OATH = (K("_REFERRAL_RESOURCE"), K("_KEEPER_REWARD_RESOURCE"), K("_RECOVERY_KEY_RESOURCE"),
                                    K("_FEE_OATH_RESOURCE"))
COMP = {"Config": "_CONFIG_COMPONENT", "MarginPool": "_POOL_COMPONENT", "Oracle": "_ORACLE_COMPONENT",
        "ReferralGenerator": "_REFERRAL_GENERATOR_COMPONENT", "FeeDelegator": "_FEE_DELEGATOR_COMPONENT",
        "FeeDistributor": "_FEE_DISTRIBUTOR_COMPONENT", "PermissionRegistry": "_PERMISSION_REGISTRY_COMPONENT"}


def comp(bp):
    return mk("checked", bp, K(COMP[bp]))


def acct(a="account"):
    return mk("checked", "MarginAccount", mk("arg", a) if isinstance(a, str) else a)


USER_ACCOUNT = {       # method -> account rule level whose holder must authorise it
    "create_recovery_key": 1, "add_auth_rule": 1, "set_level_1_auth": 1, "set_level_2_auth": 1, "set_level_3_auth": 1,
    "remove_collateral_request": 2,
    "add_collateral": 3, "margin_order_request": 3, "margin_order_tp_sl_request": 3, "cancel_requests": 3,
}
KEEPER_M = ("process_request", "swap_debt", "liquidate", "auto_deleverage", "update_pairs")
OWNER_M = ("deposit_authority", "withdraw_authority", "signal_upgrade", "update_exchange_config", "update_pair_configs",
           "update_collateral_configs", "remove_collateral_config", "collect_treasury", "collect_fee_delegator",
           "mint_referral", "mint_referral_with_allocation", "update_referral", "add_referral_allocation")
OTHER_USER = ("swap_protocol_fee", "add_liquidity", "remove_liquidity", "create_referral_codes",
              "create_referral_codes_from_allocation", "collect_referral_rewards", "create_account")
MUTATORS = tuple(USER_ACCOUNT) + KEEPER_M + OWNER_M + OTHER_USER


def role_rule(level, account="account", ver=None):
    return f(mk("role", acct(account), mk("str", "level_%d" % level), ver or eng.VER0), "?")
