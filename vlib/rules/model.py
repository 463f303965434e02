"""Independent specification of the trading operations over exact numbers, in the same terms the analysed program is
expressed in. A specification run branches where the operation's outcome does (sign of a value, side of a bound); every
branch is a case: its facts are handed to the analysis of the program, and the results must be the same terms."""
from rules.scene import *

YEAR = 31536000
POOLPOS = ("oi_long", "oi_short", "cost", "pnl_snap", "skew_abs_snap", "last_price", "last_update", "funding_2_rate",
           "funding_long_index", "funding_short_index")
ACCPOS = ("amount", "cost", "funding_index")
TOTALS = ("virtual_balance", "unrealized_pool_funding", "skew_abs_snap", "pnl_snap")


def STRAT(mode):
    return mk("adt", "scrypto::prelude::WithdrawStrategy", "Rounded", ("0",), (mk("adt", RM_T, mode, (), ()),))


RM_T = "scrypto::prelude::RoundingMode"
TO_ZERO, TO_INFINITY = STRAT("ToZero"), STRAT("ToPositiveInfinity")


def rounding(amount, strat, res):
    """the amount a token of this kind can be withdrawn in, nearest to `amount`"""
    return tm.round_(amount, mk("wd", strat, res))


def parts(v):
    """segments of a vec: [("one", element) or ("all", vec)], or None"""
    if isinstance(v, T) and v.op == "cat":
        out = []
        for sg in v.a[0]:
            if sg[-1] is not ONE:
                if not lift(sg[-1]).d:
                    continue
                return None
            out.append((sg[0], sg[1]))
        return out
    return None if isinstance(v, T) and v.op == "gate" else [("all", v)]


def pairs_of(v):
    """a vec of pairs as {first: second}; None if not of known content or with repetitions"""
    e = parts(v)
    if e is None or any(k != "one" for k, x in e):
        return None
    d = {f(x, "0"): num(f(x, "1")) for k, x in e}
    return d if len(d) == len(e) else None


def same_pairs(ck, rule, v, want, where):
    """a vec lists exactly the pairs wanted, in any order"""
    got = pairs_of(v)
    ck.ob(rule, got is not None and got.keys() == want.keys() and all(got[k] is lift(want[k]) for k in want), where,
          "found %s" % show(v, 6)[:700])


def pp_field(v, n):
    if n != "last_update":
        return fn_(v, n)
    x = f(v, n)
    if isinstance(x, T) and x.op == "gate":
        return merge(x)
    return x if isinstance(x, P) else num(f(x, "seconds_since_unix_epoch"), "i64")


def merge(x):
    return tm._sum([mulx(g, y if isinstance(y, P) else num(f(y, "seconds_since_unix_epoch"), "i64")) for y, g in x.a[0]])


class Infeasible(Exception):
    pass


class Spec:
    """one case: decisions taken so far and the facts they add"""

    def __init__(self, scene, plan, choices=()):
        self.s, self.plan, self.choices, self.i = scene, plan, list(choices), 0
        self.facts = []
        self.made = []
        self.cfg, self.pool = scene.cfg, scene.pool
        self.tot = {n: fn_(self.pool, n) for n in TOTALS}
        self.base = fn_(self.pool, "base_tokens_amount")
        self.vb = fn_(ACC, "virtual_balance")
        self.pos = {k: {n: fn_(v, n) for n in ACCPOS} for k, v in scene.pos.items()}
        self.bal = dict(scene.bal)
        self.pp = {}
        self.asserts = []
        self.protocol = self.treasury = self.referral = ZERO
        self.ref = scene.ref
        self.moved = []

    # ---- decisions
    def fact(self, *fs):
        for x in fs:
            x = assume_(x, tm.KNOWN)
            if x is ONE:
                continue
            if not x.d:
                raise Infeasible()
            self.facts.append(x)
            st = eng.State()
            st.known.update(tm.KNOWN)
            E().learn(st, x)
            tm.KNOWN.clear()
            tm.KNOWN.update(st.known)

    def neg(self, p, tag):
        """is p < 0? (p = 0 is not a case: every decision here is continuous there)"""
        if isinstance(p, P) and p.const() is not None:
            return p.const() < 0
        x = lt0(p)
        if x is ONE or x is ZERO:
            return x is ONE
        v = self.plan.get(tag)
        if v is None:
            if self.i < len(self.choices):
                v = self.choices[self.i]
            else:
                v = False
                self.choices.append(v)
            self.i += 1
        self.made.append((tag, v))
        if v:
            self.fact(x)
        else:
            self.fact(lt0(-p))
        return v

    def zero(self, p, tag):
        """is p = 0? the two cases"""
        x = eq0(p)
        if x is ONE or x is ZERO:
            return x is ONE
        v = self.plan.get(tag)
        if v is None:
            if self.i < len(self.choices):
                v = self.choices[self.i]
            else:
                v = False
                self.choices.append(v)
            self.i += 1
        self.made.append((tag, v))
        self.fact(x if v else ONE - x)
        return v

    def abs(self, p, tag):
        return -p if self.neg(p, tag) else p

    def min(self, a, b, tag):
        return a if self.neg(a - b, tag) else b

    def max(self, a, b, tag):
        return b if self.neg(a - b, tag) else a

    def clamp(self, v, lo, hi, above, below):
        if v is lo or v is hi:
            return v
        if self.neg(hi - v, above):
            self.fact(lt0(lo - v))        # since lo <= hi
            return hi
        return lo if self.neg(v - lo, below) else v

    # ---- inputs
    def ex(self, n):
        return fn_(self.cfg, "exchange." + n)

    def pc(self, k, n):
        return fn_(at(f(self.cfg, "pair_configs"), k), n)

    def price(self, k):
        return price_of(k)

    def P(self, k):
        if k not in self.pp:
            v = pool_position(k)
            self.pp[k] = {n: pp_field(v, n) for n in POOLPOS}
        return self.pp[k]

    def A(self, k):
        return self.pos.setdefault(k, {n: ZERO for n in ACCPOS})

    def rebate(self):
        return ONE - fn_(self.ref, "fee_rebate") if self.ref is not None else ONE

    def must(self, name, cond):
        self.asserts.append((name, cond))

    # ---- pool totals
    def pool_value(self):
        return self.base + self.tot["virtual_balance"] + self.tot["unrealized_pool_funding"] + self.tot["pnl_snap"]

    def skew_ratio(self, tag="pool value below one"):
        return pdiv(self.tot["skew_abs_snap"], self.max(self.pool_value(), ONE, tag))

    def settle(self, amount):
        self.vb = self.vb + amount
        self.tot["virtual_balance"] = self.tot["virtual_balance"] - amount

    def snaps(self, k):
        p = self.P(k)
        skew = (p["oi_long"] - p["oi_short"]) * self.price(k)
        a = self.abs(skew, "short skew")
        self.tot["skew_abs_snap"] = self.tot["skew_abs_snap"] + a - p["skew_abs_snap"]
        p["skew_abs_snap"] = a
        n = p["cost"] - skew
        self.tot["pnl_snap"] = self.tot["pnl_snap"] + n - p["pnl_snap"]
        p["pnl_snap"] = n
        return skew, a

    def update_pair(self, k):
        p = self.P(k)
        skew, skew_abs = self.snaps(k)
        secs = now() - p["last_update"]
        t = pscale(secs, Fr(1, YEAR))
        moved = self.abs(self.price(k) - p["last_price"], "price fell")
        last = p["last_price"]
        p["last_price"] = self.price(k)
        p["last_update"] = now()
        due = b_or(ONE - lt0(secs - self.pc(k, "update_period_seconds"), True),
                   ONE - lt0(pdiv(moved, last) - self.pc(k, "update_price_delta_ratio")))
        if self.plan.get("no time passed"):
            if secs.d:
                raise Infeasible()
            return due
        L, S, pr = p["oi_long"], p["oi_short"], self.price(k)
        hi, lo = L * pr, -S * pr
        d = skew * self.pc(k, "funding_2_delta") * t
        r = p["funding_2_rate"]
        self.fact(ONE - lt0(hi - lo))
        if self.neg(hi - r, "rate above max"):
            r = r - (r - hi) * self.min(self.pc(k, "funding_2_decay") * t, ONE, "decay partial")
            if self.neg(d, "delta negative"):
                r = self.max(r + d, lo, "rate floored")
        elif self.neg(r - lo, "rate below min"):
            r = r - (r - lo) * self.min(self.pc(k, "funding_2_decay") * t, ONE, "decay partial")
            if not self.neg(d, "delta negative"):
                r = self.min(r + d, hi, "rate capped")
        else:
            r = self.clamp(r + d, lo, hi, "rate in range above", "rate in range below")
        p["funding_2_rate"] = r
        if self.plan.get("one side empty"):
            return due
        rc = self.clamp(r, lo, hi, "clamped above", "clamped below")
        rate = skew * self.pc(k, "funding_1") + rc * self.pc(k, "funding_2")
        if not self.neg(rate, "shorts pay"):
            paid = rate * t
            share = paid * self.pc(k, "funding_share")
            dl, ds = pdiv(paid, L), -pdiv(paid - share, S)
        else:
            paid = -rate * t
            share = paid * self.pc(k, "funding_share")
            ds, dl = pdiv(paid, S), -pdiv(paid - share, L)
        fp = ((L + S) * pr * self.pc(k, "funding_pool_0") + skew_abs * self.pc(k, "funding_pool_1")) * t
        p["funding_long_index"] = p["funding_long_index"] + dl + pdiv(fp, L + S)
        p["funding_short_index"] = p["funding_short_index"] + ds + pdiv(fp, L + S)
        self.tot["unrealized_pool_funding"] = self.tot["unrealized_pool_funding"] + fp + share
        return due

    # ---- positions
    def side(self, k):
        return "funding_short_index" if self.neg(self.A(k)["amount"], "short") else "funding_long_index"

    def funding_owed(self, k):
        a = self.A(k)
        n = self.side(k)
        size = -a["amount"] if n == "funding_short_index" else a["amount"]
        return size * (self.P(k)[n] - a["funding_index"]), n

    def settle_funding(self, k):
        if k not in self.pos:
            return ZERO
        x, n = self.funding_owed(k)
        self.A(k)["funding_index"] = self.P(k)[n]
        self.tot["unrealized_pool_funding"] = self.tot["unrealized_pool_funding"] - x
        self.settle(-x)
        return -x

    def fee(self, k, value, what):
        p = self.P(k)
        skew = (p["oi_long"] - p["oi_short"]) * self.price(k)
        va = self.abs(value, "value negative")
        raw = (va * self.pc(k, "fee_0") + value * (2 * skew + value) * self.pc(k, "fee_1")) * self.rebate()
        if self.neg(raw, "%s fee negative" % what):
            return ZERO
        cap = va * self.ex("fee_max")
        return cap if self.neg(cap - raw, "%s fee capped" % what) else raw

    def open(self, k, amount):
        p, a = self.P(k), self.A(k)
        value = amount * self.price(k)
        fee = self.fee(k, value, "opening")
        cost = value + fee
        if self.neg(amount, "selling"):
            n, oi = "funding_short_index", "oi_short"
            p[oi] = p[oi] - amount
        else:
            n, oi = "funding_long_index", "oi_long"
            p[oi] = p[oi] + amount
        self.must("open interest within its limit", ONE - lt0(self.pc(k, "oi_max") - p[oi]))
        p["cost"] = p["cost"] + cost
        a["amount"] = a["amount"] + amount
        a["cost"] = a["cost"] + cost
        a["funding_index"] = p[n]
        self.snaps(k)
        self.must("number of positions within its limit", ONE - lt0(fn_(self.cfg, "exchange.positions_max", "u64") - len(self.pos), True))
        self.integrity("after opening")
        return fee

    def close(self, k, amount):
        p, a = self.P(k), self.A(k)
        value = amount * self.price(k)
        fee = self.fee(k, value, "closing")
        cost = -pdiv(amount, a["amount"]) * a["cost"]
        pnl = -value - cost - fee
        if self.neg(amount, "selling"):
            p["oi_long"] = p["oi_long"] + amount
        else:
            p["oi_short"] = p["oi_short"] - amount
        p["cost"] = p["cost"] - cost
        a["amount"] = a["amount"] + amount
        a["cost"] = a["cost"] - cost
        self.settle(pnl)
        self.snaps(k)
        return pnl, fee

    def fees(self, fee, referral=True):
        p, t = fee * self.ex("fee_share_protocol"), fee * self.ex("fee_share_treasury")
        r = ZERO
        if referral and self.ref is not None:
            r = fee * self.ex("fee_share_referral") * fn_(self.ref, "fee_referral")
        self.tot["virtual_balance"] = self.tot["virtual_balance"] - p - t - r
        self.protocol, self.treasury, self.referral = self.protocol + p, self.treasury + t, self.referral + r
        self.paid_fees = (fee - p - t - r, p, t, r)
        return self.paid_fees

    # ---- margin
    def valuation(self, which):
        pnl = margin = ZERO
        for k in sorted(self.pos, key=lambda k: k.id):
            a = self.A(k)
            if not a["amount"].d:
                continue
            value = -a["amount"] * self.price(k)
            fee = self.fee(k, value, "valuation")
            owed, _ = self.funding_owed(k)
            pnl = pnl - value - a["cost"] - fee - owed
            margin = margin + self.abs(value, "value negative") * self.pc(k, which)
        return pnl, margin

    def collateral(self):
        value = disc = margin = ZERO
        for r, b in self.bal.items():
            if r in self.s.cc:
                v = b * self.price(self.s.collaterals[r])
                value = value + v
                disc = disc + v * fn_(self.s.cc[r], "discount")
                margin = margin + v * fn_(self.s.cc[r], "margin")
        return value, disc, margin

    def integrity(self, when):
        if self.plan.get("no margin"):
            return
        pnl, m = self.valuation("margin_initial")
        _, d, cm = self.collateral()
        self.must("margin is sufficient %s" % when, ONE - lt0(pnl + d + self.vb - m - cm))

    def skew_cap(self, delta):
        if self.plan.get("no cap"):
            return
        self.must("pool skew within its cap", b_or(lt0(self.skew_ratio() - self.ex("skew_ratio_cap")), lt0(delta)))

    # ---- operations
    def margin_order(self, k, amount, reduce_only, slippage=True):
        self.update_pair(k)
        funding = self.settle_funding(k)
        have = self.pos[k]["amount"] if k in self.pos else ZERO
        close = ZERO
        if have.d and self.neg(have, "short") != self.neg(amount, "selling"):
            if self.neg(amount, "selling"):
                close = self.max(amount, -have, "closes all")
            else:
                close = self.min(amount, -have, "closes part")
        open_ = ZERO if reduce_only else amount - close
        skew0 = self.tot["skew_abs_snap"]
        pnl = fee = ZERO
        if close.d:
            pnl, fee = self.close(k, close)
        if open_.d:
            fee = fee + self.open(k, open_)
        value = self.abs(open_ + close, "selling") * self.price(k) if (open_ + close).d else ZERO
        self.trade = (fee, value)
        self.report = {"price": self.price(k), "amount_close": close, "amount_open": open_, "pnl": pnl + funding, "funding": funding}
        self.fees(fee)
        self.skew_cap(self.tot["skew_abs_snap"] - skew0)
        return pnl, fee

    def adl(self, k):
        self.update_pair(k)
        funding = self.settle_funding(k)
        r0 = self.skew_ratio()
        self.must("only above the skew cap", lt0(self.ex("skew_ratio_cap") - r0))
        a = self.A(k)
        self.must("only an open position", ONE - eq0(a["amount"]))
        gain = pdiv(a["amount"] * self.price(k) - a["cost"], self.abs(a["cost"], "cost negative"))
        u = pdiv(r0 - self.ex("adl_offset"), self.ex("adl_a"))
        self.must("only a profit above the threshold", lt0(-(u * u * u) - self.ex("adl_b") * u - gain))
        amount = -a["amount"]
        pnl, fee = self.close(k, amount)
        self.report = {"price": self.price(k), "amount_close": amount, "pnl": pnl + funding, "funding": funding, "pnl_percent": gain,
                       "threshold": -(u * u * u) - self.ex("adl_b") * u}
        self.fees(fee)
        self.must("only if the skew falls", lt0(self.skew_ratio() - r0))
        self.trade = (gain, -(u * u * u) - self.ex("adl_b") * u)
        return pnl, fee

    def liquidate_positions(self):
        pnl = margin = fees = owed = ZERO
        for k in self.pos:
            self.update_pair(k)
        for k in self.pos:
            a, p = self.A(k), self.P(k)
            value = -a["amount"] * self.price(k)
            fee = self.fee(k, value, "closing")
            fund, n = self.funding_owed(k)
            if n == "funding_short_index":
                p["oi_short"] = p["oi_short"] + a["amount"]
            else:
                p["oi_long"] = p["oi_long"] - a["amount"]
            p["cost"] = p["cost"] - a["cost"]
            pnl = pnl - value - a["cost"] - fee - fund
            margin = margin + self.abs(value, "value negative") * self.pc(k, "margin_maintenance")
            fees, owed = fees + fee, owed + fund
            self.pos[k] = {n: ZERO for n in ACCPOS}
        self.tot["unrealized_pool_funding"] = self.tot["unrealized_pool_funding"] - owed
        for k in self.pos:
            self.snaps(k)
        return pnl, margin, fees, owed

    def liquidate(self, payment):
        pnl, margin, fees, owed = self.liquidate_positions()
        value, disc, cm = self.collateral()
        before = self.vb
        self.must("only below the maintenance margin", lt0(pnl + disc + before - margin - cm))
        paid = rounding(disc, TO_INFINITY, BASE)
        self.must("the payment covers the discounted collateral", ONE - lt0(payment - paid))
        self.base = self.base + paid
        self.payment = paid
        self.settle(pnl + paid)
        self.loss = ZERO
        if self.neg(self.vb, "shortfall"):
            self.loss = self.vb
            self.settle(-self.vb)
        self.fees(fees)
        self.report = {"account_value": pnl + disc + before, "margin": margin + cm, "virtual_balance": before, "positions_pnl": pnl,
                       "collateral_value": value, "collateral_value_discounted": disc, "funding": -owed, "pool_loss": self.loss}

    # ---- liquidity
    def add_liquidity(self, value):
        fee = value * self.ex("fee_liquidity_add")
        supply = self.supply = lp_supply()
        pv = self.max(self.pool_value(), ONE, "pool value below one")
        if self.zero(supply, "no liquidity yet"):
            self.lp, rate = value - fee, ONE
        else:
            rate = pdiv(pv, supply)
            self.lp = pdiv(value - fee, rate)
        self.report = {"lp_price": rate, "lp_amount": self.lp, "amount": value}
        self.base = self.base + value
        self.fees(fee, False)

    def remove_liquidity(self, lp):
        pv = self.max(self.pool_value(), ZERO, "pool value negative")
        value = lp * pdiv(pv, lp_supply())
        fee = value * self.ex("fee_liquidity_remove")
        self.payout = value - fee
        self.must("the pool has the tokens", ONE - lt0(self.base - self.payout))
        self.report = {"lp_price": pdiv(pv, lp_supply()), "lp_amount": -lp, "amount": -rounding(self.payout, TO_ZERO, BASE)}
        self.base = self.base - rounding(self.payout, TO_ZERO, BASE)
        self.fees(fee, False)
        self.skew_cap(ZERO)

    def swap_debt(self, resource, payment):
        self.must("only an account in debt", lt0(self.vb))
        value = self.min(payment, -self.vb, "partial repayment")
        price = self.price(self.s.collaterals[resource]) * (fn_(self.s.cc[resource], "discount") * Fr(1, 10) + Fr(9, 10))
        have = self.bal.get(resource, ZERO)
        self.swap_price = price
        amount = pdiv(value, price)
        if self.neg(have - amount, "collateral runs out"):
            amount, value = have, have * price
        self.settle(value)
        self.paid = tm.round_(value, TO_INFINITY)
        self.given_out = amount

    # ---- collateral
    def add_collateral(self, tokens):
        """tokens: [(resource, amount)]"""
        self.to_pool, self.to_account = [], []
        for i, (r, a) in enumerate(tokens):
            if r is BASE:
                self.base = self.base + a
                self.settle(a)
                self.to_pool.append(i)
            else:
                if r not in self.s.cc:
                    self.must("only configured collateral", ZERO)
                self.bal[r] = self.bal.get(r, ZERO) + a
                self.to_account.append(i)
        self.must("number of collaterals within its limit", ONE - lt0(fn_(self.cfg, "exchange.collaterals_max", "u64") - len(self.bal), True))

    def fee_oath(self, amount):
        self.vb = self.vb - amount
        self.integrity("after paying the fee")

    def remove_collateral(self, claims):
        """claims: [(resource, amount)]"""
        total = {}
        for r, a in claims:
            total[r] = total.get(r, ZERO) + a
        self.out_pool, self.out_account = {}, {}
        for r, a in total.items():
            if r is BASE:
                self.must("no more than the account's balance", ONE - lt0(self.vb - a))
                self.must("no more than the pool's tokens", ONE - lt0(self.base - a))
                paid = rounding(a, TO_ZERO, BASE)
                self.base = self.base - paid
                self.settle(-paid)
                self.out_pool[r] = a
            else:
                have = self.bal.get(r, ZERO)
                self.must("no more collateral than held", ONE - lt0(have - a))
                self.bal[r] = have - rounding(a, TO_ZERO, r)
                self.out_account[r] = a
        self.integrity("after the withdrawal")


def lp_supply():
    return num(mk("supply", mk("resmgr", K("_LP_RESOURCE")), eng.VER0))


def Fr(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def cases(scene, plan, run, limit=200):
    """every branch of the specification: [(facts, spec)]"""
    out = []
    stack = [()]
    while stack:
        ch = stack.pop()
        with scene.given():
            sp = Spec(scene, plan, ch)
            ok = True
            try:
                run(sp)
            except Infeasible:
                ok = False
        c = sp.choices
        if ok:
            out.append(sp)
        for i in range(len(c) - 1, len(ch) - 1, -1):
            if not c[i]:
                stack.append(tuple(c[:i]) + (True,))
        if len(out) > limit:
            raise ValueError("too many cases")
    return out


def label(sp):
    seen, out = set(), []
    for t, v in sp.made:
        if t not in seen:
            seen.add(t)
            out.append(t if v else "not " + t)
    return "; ".join(out)


def other_pair(scene):
    """any pair that is not among the named ones"""
    o = arg("any_other_pair")
    return o, tuple(ONE - tm.eqv(o, k) for k in scene.quote)


def pool_positions(ck, x, sp, what, fields=POOLPOS):
    m = f(x.pupd, "position_updates")
    for k in x.poolpos:
        has = map_has(m, k)
        old = {n: pp_field(x.poolpos[k], n) for n in POOLPOS}
        want = sp.pp.get(k, old)
        if want != old:
            ck.same("%s: pool position is written" % what, has, ONE, x.r)
        v = map_at(m, k)
        for n in fields:
            ck.same("%s: pool position %s" % (what, n), mulx(has, pp_field(v, n)), mulx(has, want[n]), x.r)
    o, fs = other_pair(x)
    with given(dict(tm.KNOWN, **{}) | literals(fs), tm.VALUES):
        ck.ob("%s: no other pool position changes" % what, not map_has(m, o).d, x.r, show(map_has(m, o), 6)[:300])


def acc_positions(ck, x, sp, what, fields=ACCPOS):
    m = f(x.upd, "position_updates")
    for k in x.poolpos:
        has = map_has(m, k)
        old = x.pos.get(k)
        want = sp.pos.get(k)
        if want is None:
            ck.ob("%s: opens no position elsewhere" % what, not has.d, x.r, show(has, 5)[:300])
            continue
        if old is None or any(want[n] is not fn_(old, n) for n in ACCPOS):
            ck.same("%s: account position is written" % what, has, ONE, x.r)
        v = map_at(m, k)
        for n in fields:
            ck.same("%s: account position %s" % (what, n), mulx(has, fn_(v, n)), mulx(has, want[n]), x.r)
    o, fs = other_pair(x)
    with given(dict(tm.KNOWN) | literals(fs), tm.VALUES):
        ck.ob("%s: no other account position changes" % what, not map_has(m, o).d, x.r, show(map_has(m, o), 6)[:300])


def totals(ck, x, sp, what, names=TOTALS, vb=True):
    for n in names:
        ck.same("%s: pool %s" % (what, n), fn_(x.pupd, n), sp.tot[n], x.r)
    if vb:
        ck.same("%s: account balance" % what, fn_(x.upd, "virtual_balance"), sp.vb, x.r)


def distributed(ck, x, sp, what):
    a = [e.d["args"] for e, p in x.r.calls("FeeDistributor", "distribute")]
    for i, want in ((0, sp.protocol), (1, sp.treasury)):
        got = tm._sum([num(z[i]) for z in a]) if a else ZERO
        ck.same("%s: %s fee distributed" % (what, ("protocol", "treasury")[i]), got, want, x.r)


def rewarded(ck, x, sp, what):
    """the account's referral gets its share, and nobody else"""
    got = {}
    for e, p in x.r.ev("nfupdate"):
        n = show(e.d["field"], 3).strip("'\"")
        got.setdefault(n, []).append(e)
        ck.ob("%s: the rewarded referral is the account's" % what, e.d["id"] is f(ACC, "referral_id.?") and
              K("_REFERRAL_RESOURCE") in subterms(e.d["rm"]), e, show(e.d["id"], 5)[:300])
    if sp.ref is None:
        ck.ob("%s: no referral is rewarded" % what, not got, x.r)
        return
    if ck.ob("%s: reward recorded" % what, set(got) == {"balance", "total_rewarded"} or not sp.referral.d and not got, x.r, str(sorted(got))):
        for n in got:
            ck.same("%s: referral %s" % (what, n.replace("_", " ")), num(got[n][-1].d["value"]), fn_(sp.ref, n) + sp.referral, got[n][-1])
