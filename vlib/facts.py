"""Facts about /repo's current source: MIR and type definitions of every local crate.

The facts come from rustc itself (tools/mirdump is a rustc driver that prints the
type-checked MIR of each local crate as JSON).  They are keyed by the content of the
sources, so a changed tree is always re-analysed.
"""
import fcntl
import glob
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CRATES = ("account common config env_registry exchange faucet fee_delegator fee_distributor oracle "
          "permission_registry pool referral_generator token_wrapper").split()


class FactsError(Exception):
    pass


def cache_dir():
    d = os.path.join(VERIF, ".cache")
    try:
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, ".w%d" % os.getpid())
        open(p, "w").close()
        os.unlink(p)
        return d
    except OSError:
        import tempfile
        d = os.path.join(tempfile.gettempdir(), "verif-cache-%d" % os.getuid())
        os.makedirs(d, exist_ok=True)
        return d


def toolchain():
    for t in sorted(glob.glob(os.path.expanduser("~/.rustup/toolchains/nightly-*")) +
                    glob.glob("/root/.rustup/toolchains/nightly-*"),
                    key=lambda t: (not os.path.basename(t).startswith("nightly-x86_64"), t)):
        if os.path.exists(t + "/bin/rustc") and glob.glob(t + "/lib/rustlib/*/lib/librustc_driver*.rmeta") + \
                glob.glob(t + "/lib/rustlib/*/lib/librustc_middle*"):
            return t
    raise FactsError("no nightly toolchain with rustc-dev found")


def source_files():
    fs = []
    for c in CRATES:
        base = os.path.join(REPO, c)
        for root, dirs, files in os.walk(os.path.join(base, "src")):
            dirs.sort()
            fs += [os.path.join(root, f) for f in sorted(files)]
        for n in ("Cargo.toml", "build.rs"):
            p = os.path.join(base, n)
            if os.path.exists(p):
                fs.append(p)
    return fs


def digest(files, extra=b""):
    h = hashlib.sha256(extra)
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def run(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise FactsError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build(verbose=False):
    """Return the directory holding <crate>.json for the current tree."""
    cd = cache_dir()
    tool = os.path.join(VERIF, "tools", "mirdump", "main.rs")
    t = toolchain()
    with open(os.path.join(cd, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        td = digest([tool], t.encode())
        drv = os.path.join(cd, "mirdump-" + td)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC", "RUSTDOC")) and k != "CARGO_HOME":
                del env[k]
        env["LD_LIBRARY_PATH"] = t + "/lib"
        env["RUSTUP_TOOLCHAIN"] = os.path.basename(t)
        if not os.path.exists(drv):
            run([t + "/bin/rustc", "-O", "--edition", "2021", tool, "-o", drv + ".tmp"], env=env, cwd=cd)
            os.rename(drv + ".tmp", drv)
        out = os.path.join(cd, "mir-" + digest(source_files(), td.encode() + REPO.encode()))
        if os.path.exists(os.path.join(out, "DONE")):
            return out
        ac = os.path.join(cd, "allcrates")
        shutil.rmtree(ac, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "tools", "allcrates"), ac)
        p = os.path.join(ac, "Cargo.toml")
        with open(p) as f:
            s = f.read().replace("/repo/", REPO.rstrip("/") + "/")
        with open(p, "w") as f:
            f.write(s)
        target = os.path.join(cd, "target")
        for c in CRATES:
            for d in glob.glob(os.path.join(target, "debug", "build", c)) + \
                    glob.glob(os.path.join(target, "debug", ".fingerprint", c + "-*")):
                shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        env.update(RUSTC=t + "/bin/rustc", RUSTC_WRAPPER=drv, MIRDUMP_ROOT=REPO.rstrip("/"), MIRDUMP_OUT=out,
                   CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
        cargo = t + "/bin/cargo"
        if not os.path.exists(cargo):
            cargo = "cargo"
        run([cargo, "check", "--offline", "--target-dir", target], env=env, cwd=ac)
        missing = [c for c in CRATES if not os.path.exists(os.path.join(out, c + ".json"))]
        if missing:
            raise FactsError("no facts for crates: %s" % missing)
        open(os.path.join(out, "DONE"), "w").close()
        for d in glob.glob(os.path.join(cd, "mir-*")):
            if d != out and time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
        return out


class Body:
    __slots__ = ("crate", "p", "k", "kind", "n", "file", "line", "impl", "tr", "name", "locals", "names", "blocks",
                 "types", "pub", "exp", "_cfg")

    def __repr__(self):
        return "<Body %s>" % self.k


class Facts:
    def __init__(self, d):
        self.dir = d
        self.bodies = {}
        self.adts = {}
        self.types = {}
        self.skipped = 0
        for c in CRATES:
            with open(os.path.join(d, c + ".json")) as f:
                j = json.load(f)
            tys = [norm_ty(t, c) for t in j["types"]]
            self.types[c] = tys
            self.skipped += j["skipped"]
            for a in j["adts"]:
                p = norm_ty(a["p"], c)
                for v in a["variants"]:
                    v["f"] = [[n, norm_ty(t, c), pb] for n, t, pb in v["f"]]
                a["p"] = p
                self.adts[p] = a
            for b in j["bodies"]:
                o = Body()
                o.crate = c
                o.p, o.k, o.kind, o.n, o.file, o.line = b["p"], b["k"], b["kind"], b["n"], b["file"], b["line"]
                o.impl = norm_ty(b["impl"], c) if b.get("impl") else None
                o.tr, o.name, o.pub, o.exp = b.get("tr"), b.get("name"), b.get("pub"), b.get("exp")
                o.locals = b["locals"]
                o.names = {int(k): v for k, v in b["names"].items()}
                o.blocks = b["blocks"]
                o.types = tys
                o._cfg = None
                self.bodies[o.k] = o
        self.by_name = {}
        for b in self.bodies.values():
            if b.kind == "fn":
                self.by_name.setdefault((b.crate, b.name), []).append(b)

    def fn(self, crate, name, impl=None):
        """The unique local function `name` of `crate` (optionally on the impl whose type ends with impl)."""
        c = [b for b in self.by_name.get((crate, name), [])
             if impl is None or (b.impl and b.impl.split("<")[0].split("::")[-1] == impl)]
        if len(c) == 1:
            return c[0]
        return None


import re
_CR = re.compile(r"\bcrate::")


def norm_ty(t, c):
    return _CR.sub(c + "::", t)


def load():
    d = build()
    pk = os.path.join(d, "facts.pickle")
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    fa = Facts(d)
    try:
        with open(pk + ".tmp%d" % os.getpid(), "wb") as f:
            pickle.dump(fa, f, protocol=4)
        os.rename(pk + ".tmp%d" % os.getpid(), pk)
    except Exception:
        pass
    return fa


if __name__ == "__main__":
    t0 = time.time()
    fa = load()
    print(fa.dir, len(fa.bodies), "bodies", len(fa.adts), "adts", "%.1fs" % (time.time() - t0))
