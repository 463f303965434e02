"""Extraction of the method/function access tables a blueprint is published with."""
from rt import *
from eng import *


def chain(m):
    """map written entry by entry from empty -> dict"""
    d = {}
    while isinstance(m, T) and m.op == "mapw":
        base, k, v, p = m.a
        kk = k.a[0] if isinstance(k, T) and k.op == "str" else k
        if kk not in d:
            if p is ONE:
                d[kk] = v
            elif p is not ZERO:
                d[kk] = mk("cond", v, p)
        m = base
    if not (isinstance(m, T) and m.op == "mapnew"):
        raise Missing("access table is not a static map: %s" % show(m, 4))
    return d


def body_by(crate, name):
    c = [b for b in F().bodies.values() if b.crate == crate and b.kind == "fn" and b.name == name and "_test" not in b.k]
    if len(c) != 1:
        raise Missing("%s: %d definitions of %s" % (crate, len(c), name))
    return c[0]


def run_body(b):
    return E().run_entry(b)


def tables(crate):
    """({role: updaters}, {method: None (public) | frozenset(roles) | 'owner' markers}) or (None, 'public')"""
    r = run_body(body_by(crate, "method_auth_template")).ret
    if r.a[1] != "StaticRoleDefinition":
        return None, None
    sd = proj(r, "@StaticRoleDefinition.0") if False else r.a[3][0]
    roles = f(sd, "roles")
    if roles.a[1] != "Normal":
        rr = {}
    else:
        rr = {k: frozenset(rolename(x) for x in chain(v)) for k, v in chain(roles.a[3][0]).items()}
    mm = {}
    for k, v in chain(f(sd, "methods")).items():
        if v.op == "adt" and v.a[1] == "Public":
            mm[k] = None
        elif v.op == "adt" and v.a[1] == "RoleProtected":
            mm[k] = frozenset(rolename(x) for x in chain(v.a[3][0]))
        elif v.op == "adt":
            mm[k] = v.a[1]
        else:
            mm[k] = "?"
    return rr, mm


def rolename(x):
    if isinstance(x, str):
        return x
    if isinstance(x, T) and x.op == "const":
        n = x.a[-1].split("::")[-1]
        return {"OWNER_ROLE": "_owner_", "SELF_ROLE": "_self_"}.get(n, n)
    return show(x, 3)


def func_table(crate):
    r = run_body(body_by(crate, "function_auth")).ret
    if r.a[1] == "AllowAll":
        return None
    if r.a[1] == "RootOnly":
        return "root"
    return chain(r.a[3][0])


def exported(crate):
    return sorted({s[2] for b in F().bodies.values() if b.crate == crate and b.kind == "fn"
                   for s in [E().stub_of(b)] if s})


def role_state(crate):
    """(owner term, {role: rule}) given to the component when it is created"""
    r = entry(crate, "new")
    x = r.ret
    if x.op == "tup":
        x = x.a[0][0]
    owner, rl = None, {}
    while isinstance(x, T) and x.op == "call":
        if x.a[0] == "prepare_to_globalize":
            owner = x.a[1][1]
            break
        if x.a[0] == "roles":
            rl = chain(x.a[1][1])
        x = x.a[1][0]
    if owner is None:
        raise Missing("%s::new does not globalize a component" % crate)
    return r, owner, rl


def is_req(rule, res):
    """rule == require(<named constant res>)"""
    return isinstance(rule, T) and rule.op == "adt" and rule.a[1] == "Protected" and \
        rule.a[3][0].op == "call" and rule.a[3][0].a[0] == "require" and is_named(rule.a[3][0].a[1][0], res)


def is_named(t, name):
    return isinstance(t, T) and t.op == "const" and t.a[-1].split("::")[-1] == name


def kind_of(rule):
    if is_req(rule, "_AUTHORITY_RESOURCE"):
        return "authority"
    if isinstance(rule, T) and rule.op == "adt":
        if rule.a[0].split("::")[-1] == "FallToOwner":
            return "owner"
        if rule.a[1] == "AllowAll":
            return "any"
    return show(rule, 4)
