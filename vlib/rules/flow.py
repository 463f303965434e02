"""The exchange's account operations seen from outside: what they read, what they write, under which facts."""
from rules.xlib import *

VER0 = eng.VER0
STATUS = {"DORMANT": 0, "ACTIVE": 1, "EXECUTED": 2, "CANCELLED": 3, "EXPIRED": 4}
REQ_T = "exchange::exchange::requests::Request"
PRICE = ["None", "Gte", "Lte"]
SLIP = ["None", "Percent", "Absolute"]
NOW = None


def RET(bp, method, recv, args=(), ver=VER0):
    return mk("ret", bp, method, recv, tuple(args), ver)


ACC = RET("MarginAccount", "get_info", acct())


def now():
    return A(mk("now"))


class Req:
    """the request stored under `index` in the account"""
    def __init__(self):
        self.index = num(arg("index"), "u64")
        g = RET("MarginAccount", "get_request", acct(), (self.index,))
        self.opt = g
        self.kr = f(g, "?")
        self.status = fn_(self.kr, "status", "u8")
        self.expiry = fn_(self.kr, "expiry", "i64")
        self.submission = fn_(self.kr, "submission", "i64")
        self.expired = ONE - lt0(now() - self.expiry, True)
        self.req = mk("dec", REQ_T, f(self.kr, "request"))
        self.order = A(mk("is", self.req, "MarginOrder"))
        self.mo = f(self.req, "@MarginOrder.0")
        self.rc = f(self.req, "@RemoveCollateral.0")

    def is_status(self, n):
        return eq0(self.status - STATUS[n], True)


class Flow:
    def __init__(self, ck, method, given=(), label="", vals=(), **assume):
        self.ck = ck
        self.r = r = ck.entry("exchange", method, given=given, label=label, vals=vals, **assume)
        self.acc = ACC
        self.m = method

    def opt(self, bp, method):
        s = {e.d["ret"] for e, p in self.r.calls(bp, method)}
        return s.pop() if len(s) == 1 else None

    @property
    def cfg(self):
        return self.r.src("Config", "get_info")

    @property
    def pool(self):
        return self.r.src("MarginPool", "get_info")

    @property
    def orc(self):
        s = {e.d["ret"] for e, p in self.r.calls("Oracle")}
        if len(s) != 1:
            raise Missing("%s: %d oracle reads" % (self.r.id, len(s)))
        return s.pop()

    @property
    def upd(self):
        return self.r.call("MarginAccount", "update").d["args"][0]

    @property
    def pupd(self):
        return self.r.call("MarginPool", "update").d["args"][0]

    def given(self):
        return given(self.r.known, self.r.vals)


def role_chain(r):
    return role_chain_of(r.ret)


def role_chain_of(x):
    from rules.authlib import chain
    rl, owner, address = {}, None, None
    while isinstance(x, T) and x.op == "call":
        if x.a[0] == "prepare_to_globalize":
            owner = x.a[1][1]
        elif x.a[0] == "roles":
            rl = chain(x.a[1][1])
        elif x.a[0] == "with_address":
            address = x.a[1][1]
        x = x.a[1][0]
    return owner, rl, x, address
