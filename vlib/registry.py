"""property id -> rules"""
import importlib
import sys
import time
import traceback

TECH = ("abstract interpretation of the type-checked MIR: gated value-flow graph of every exported entry point, "
        "rules matched on canonical terms")

CASES = "case-by-case comparison of the value-flow graph of %s with an independent specification"

REG = {
    "C01": ("auth", "c01", "extraction of the published access tables by abstract interpretation of the compiled "
            "access-rule constructors; every unprotected method shown effect-free by interprocedural effect analysis"),
    "C02": ("auth", "c02", "extraction of the exchange's published access tables; unprotected methods shown effect-free"),
    "C03": ("access", "c03", "required-precondition dataflow on the value-flow graph of every account operation"),
    "C04": ("access", "c04", "taint of component receivers and of the authority badge over every exchange entry point"),
    "C05": ("requests", "c05", "required-precondition dataflow and store-update comparison on the value-flow graph of request execution"),
    "C06": ("requests", "c06", "value-flow comparison of every submitted request record with its specification"),
    "C07": ("requests", "c07", "value-flow comparison of every request-record update with its specification; absence of such updates elsewhere"),
    "C08": ("storage", "c08", "state-update summaries of every account-store method compared with their specification"),
    "C09": ("storage", "c09", "state-update summaries of every pool-store method compared with their specification"),
    "C10": ("conserve", "c10", "summed change of every balance over the whole call graph of every entry point, compared with zero"),
    "C11": ("funding", "c11", CASES % "pair updates and of the funding settled by every order, liquidation and deleveraging"),
    "C12": ("trading", "c12", "case-by-case comparison of the value-flow graph of order execution with an independent specification"),
    "C13": ("trading", "c13", "case-by-case comparison of the value-flow graph of order execution with an independent specification"),
    "C14": ("trading", "c14", CASES % "order execution"),
    "C15": ("trading", "c15", CASES % "liquidation"),
    "C16": ("trading", "c16", CASES % "auto-deleveraging"),
    "C17": ("trading", "c17", CASES % "order execution"),
    "C18": ("trading", "c18", CASES % "order execution"),
    "C19": ("trading", "c19", CASES % "order execution"),
    "C20": ("oracle", "c20", "state-update summaries and required preconditions of every oracle method"),
    "C21": ("prices", "c21", "required-precondition dataflow on the value-flow graph of every operation that uses prices, for every order of the age limits"),
    "C22": ("assets", "c22", CASES % "the liquidity operations"),
    "C23": ("assets", "c23", CASES % "collateral removal"),
    "C24": ("assets", "c24", CASES % "collateral deposit"),
    "C25": ("assets", "c25", CASES % "every operation that takes a fee oath"),
    "C26": ("assets", "c26", CASES % "debt swaps"),
    "C27": ("assets", "c27", CASES % "the fee-collecting operations"),
    "C28": ("configs", "c28", "required preconditions, stored form and read-back of every configuration setter compared with their specification"),
    "C29": ("referral", "c29", CASES % "every referral-generator method"),
    "C30": ("assets", "c30 c30_admin", CASES % "the referral operations"),
    "C31": ("tokens", "c31", "state-update and asset-flow summaries of every wrapper method, and the rights of its flash-loan token, compared with their specification"),
    "C32": ("tokens", "c32", "state-update and asset-flow summaries of every fee-delegator method, and the rights of the fee token, compared with their specification"),
    "C33": ("permissions", "c33", "case-by-case comparison of the access rules and index updates of account creation and access changes with an independent specification"),
    "C34": ("funding", "c34", CASES % "the keeper operations"),
    "C35": ("storage", "c35", "state-update summaries of every fee-distributor method compared with their specification"),
    "C36": ("storage", "c36", "state-update summaries of every shared-collection operation compared with their specification"),
    "C37": ("events", "c37", "published event fields compared with the independent specification's values and with the state actually written, per operation and case"),
    "C39": ("views", "c39", "value-flow comparison of every reported field with the stored value it stands for"),
    "C42": ("tokens", "c42", "state-update and token-effect summaries of every faucet method compared with their specification"),
    "C41": ("refusals", "c41", "implication of every assertion reached, case by case, by the specification's conditions"),
    "C40": ("tokens", "c40", "state-update summaries of every variable-registry method compared with their specification"),
}


def main(prop):
    import facts
    import rt
    mod, fn, tech = REG[prop]
    try:
        rt.F()
    except facts.FactsError as ex:
        print("cannot analyse the tree: %s" % ex)
        return 3
    m = importlib.import_module("rules." + mod)
    return rt.run(prop, [getattr(m, n) for n in fn.split()], {"technique": tech})
