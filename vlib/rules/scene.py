"""Scenes: an operation analysed with its collections made explicit (which pairs, which collateral tokens), every number
left symbolic. Collections of any content are covered by the sizes listed in each rule."""
from rules.flow import *
from rules.requests import vec, entries, same_under
from rules.storage import mapof, differ


def ctx_map(facts, kv):
    with given(tuple(facts)):
        return mapof(*kv)


def balance(r):
    return num(arg("balance_of_" + name(r)))


def name(k):
    if k.op == "arg":
        return k.a[0]
    if k.op == "const":
        return k.a[-1].split("::")[-1]
    return "order"


def quote(pair):
    return arg("quote_of_" + name(pair))


READS = ("get_info", "get_prices", "get_prices_with_auth", "push_and_get_prices", "push_and_get_prices_with_auth")


def pool_position(pair):
    return arg("pool_position_" + name(pair))


def price_of(pair):
    return fn_(quote(pair), "0")


def referral_data(x):
    """the referral record the operation works with: the one named by the account"""
    ts = set()
    for e, p in x.r.evs:
        for v in e.d.values():
            if isinstance(v, (T, P)):
                ts |= {t for t in subterms(v) if t.op == "nfdata"}
            elif isinstance(v, (tuple, list)):
                for w in v:
                    if isinstance(w, (T, P)):
                        ts |= {t for t in subterms(w) if t.op == "nfdata"}
    if not ts:
        return arg("unread_referral_record")    # equal to nothing the operation computes
    if len(ts) != 1:
        raise Missing("%s: %d referral records used" % (x.r.id, len(ts)))
    return ts.pop()


def bucket(res, amount):
    import stdmodel
    return stdmodel.mkbucket(res, amount)


class Scene(Flow):
    """positions: pairs the account holds; tokens: account's collateral; collaterals: configured tokens -> price pair;
    pairs: other pairs named by the operation. Different terms are different pairs/tokens. facts/vals: further case facts."""

    def __init__(self, ck, method, label, positions=(), tokens=(), collaterals=(), pairs=(), facts=(), vals=(), crate="exchange",
                 extra=None, idle=False, **assume):
        self.idle = idle
        self.poolpos = {}
        self.positions, self.tokens, self.collaterals = tuple(positions), tuple(tokens), dict(collaterals)
        ps, ts = [], []
        for k in self.positions + tuple(pairs) + tuple(self.collaterals.values()):
            if k not in ps:
                ps.append(k)
        for k in self.tokens + tuple(self.collaterals):
            if k not in ts:
                ts.append(k)
        facts = tuple(facts) + differ(*ps) + differ(*ts)
        vals = list(vals)
        self.pos = {k: arg("position_" + name(k)) for k in self.positions}
        self.bal = {k: balance(k) for k in self.tokens}
        self.cc = {k: arg("collateral_config_" + name(k)) for k in self.collaterals}
        self.quote = {}
        vals += [(f(ACC, "positions"), ctx_map(facts, [(k, v) for k, v in self.pos.items()])),
                 (f(ACC, "collateral_balances"), ctx_map(facts, [(k, v) for k, v in self.bal.items()]))]
        if extra:
            vals += extra(self)
        stages = [("Config", self._config), ("MarginPool", self._pool), ("Oracle", self._oracle)]
        for bp, fill in stages:
            r = entry(crate, method, given=facts, label=label, vals=tuple(vals), **assume)
            s = {e.d["ret"] for e, p in r.calls(bp) if e.d["method"] in READS}
            if len(s) > 1:
                raise Missing("%s: %d reads of %s" % (r.id, len(s), bp))
            if s:
                with given(r.known, r.vals):
                    vals += fill(r, s.pop())
        for _ in range(3):
            r = entry(crate, method, given=facts, label=label, vals=tuple(vals), **assume)
            with given(r.known, r.vals):
                more = [v for v in self._returned(r) if v[0] not in dict(vals)]
            if not more:
                break
            vals += more
        Flow.__init__(self, ck, method, given=facts, label=label, vals=tuple(vals), **assume)
        self.facts = facts

    referred = False

    @property
    def ref(self):
        """the account's referral record, if the case has one"""
        return referral_data(self) if self.referred else None

    def _config(self, r, ret):
        return [(f(ret, "collaterals"), mapof(*[(k, v) for k, v in self.cc.items()]))] + [(f(self.cc[k], "pair_id"), p) for k, p in self.collaterals.items()]

    def _pool(self, r, ret):
        """the pool answers exactly the asked pairs (C09)"""
        w = []
        for e, p in r.calls("MarginPool", "get_info"):
            base, some = tm.map_chain(e.d["args"][0])
            if base.op != "mapnew":
                raise Missing("%s: the set of pool positions read is not known" % r.id)
            w += [x for x in some if all(x[0] is not y[0] for y in w)]
        out, vals = mk("mapnew"), []
        for k, v, p in w:
            if p.d:
                self.poolpos[k] = pool_position(k)
                out = tm.mapw(out, k, self.poolpos[k], p)
                if self.idle:
                    vals.append((f(self.poolpos[k], "last_update.seconds_since_unix_epoch"), now()))
        return [(f(ret, "positions"), out)] + vals

    def _oracle(self, r, ret):
        """the oracle answers exactly the asked pairs (C20)"""
        ids = [e.d["args"][0] for e, p in r.calls("Oracle")]
        base, w = tm.map_chain(ids[0])
        if base.op != "mapnew":
            raise Missing("%s: the set of priced pairs is not known" % r.id)
        out = mk("mapnew")
        for k, v, p in w:
            if not p.d:
                continue
            self.quote[k] = quote(k)
            out = tm.mapw(out, k, self.quote[k], p)
        return [(ret, out)]

    def _returned(self, r):
        """the stores hand out exactly the tokens asked for, in the amounts the token allows (C08, C09)"""
        out = []
        for e, p in r.calls("MarginPool", "withdraw"):
            out.append((e.d["ret"], bucket(BASE, tm.round_(num(e.d["args"][0]), mk("wd", e.d["args"][1], BASE)))))
        for e, p in r.calls("MarginAccount", "withdraw_collateral_batch"):
            l = entries(e.d["args"][0])
            if l is not None and all(g is ONE for x, g in l):
                out.append((e.d["ret"], vec(*[bucket(f(x, "0"), tm.round_(fn_(x, "1"), mk("wd", e.d["args"][1], f(x, "0")))) for x, g in l])))
        return out

    def price(self, pair):
        return fn_(self.quote[pair], "0")

    def time(self, pair):
        return fn_(self.quote[pair], "1", "i64")
