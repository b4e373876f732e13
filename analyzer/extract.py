"""Rebuild the facts of /repo's current working tree with the bspmir rustc driver.

Nothing of /repo is executed: `cargo check` type-checks both workspace crates with the driver as
the workspace rustc wrapper, which writes their resolved MIR as JSON.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BSP_REPO", "/repo")
BUILD = os.environ.get("BSP_BUILD") or os.path.join(VERIF, ".build")
DRIVER = os.path.join(BUILD, "driver", "debug", "bspmir")


class Broken(Exception):
    """The analysis could not be carried out (an error of the check, not a verdict)."""


def run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    return env


def tree_hash():
    h = hashlib.sha256()
    roots = [REPO, os.path.join(VERIF, "driver")]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", ".build"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
                except OSError:
                    pass
    return h.hexdigest()[:24]


def build_driver():
    src = os.path.join(VERIF, "driver")
    env = base_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    rc, out = run(["cargo", "+nightly", "build", "--offline", "-q"], src, env)
    if rc != 0 or not os.path.exists(DRIVER):
        raise Broken("cannot build the driver:\n" + out[-4000:])


def extract(release=False):
    """Return {crate: facts} of the development (default) or the release configuration."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        tag = tree_hash()
        kind = "release" if release else "facts"
        out = os.path.join(BUILD, kind, tag)
        done = os.path.join(out, "done")
        if not os.path.exists(done):
            shutil.rmtree(os.path.join(BUILD, kind), ignore_errors=True)
            os.makedirs(out)
            tgt = os.path.join(BUILD, "target")
            env = base_env()
            rc, sysroot = run(["rustc", "+nightly", "--print", "sysroot"], VERIF, env)
            if rc != 0:
                raise Broken("no nightly toolchain: " + sysroot)
            env["LD_LIBRARY_PATH"] = sysroot.strip() + "/lib"
            env["BSPMIR_OUT"] = out
            env["RUSTFLAGS"] = "-Zalways-encode-mir"
            env["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
            env["CARGO_TARGET_DIR"] = tgt
            cmd = ["cargo", "+nightly", "check", "--workspace", "--lib", "--offline"] + (["--release"] if release else [])
            lock = os.path.join(REPO, "Cargo.lock")
            cfg = []
            if os.path.exists(lock):
                lc = os.path.join(BUILD, "lockfile", "Cargo.lock")
                os.makedirs(os.path.dirname(lc), exist_ok=True)
                shutil.copyfile(lock, lc)
                cfg = ["--config", 'resolver.lockfile-path="%s"' % lc]
            names = ("bsp_server", "bsp_types")

            def missing():
                return [c for c in names if not os.path.exists(os.path.join(out, c + ".json"))]
            # the workspace crates must be compiled again: cargo does not know about the facts
            run(["cargo", "+nightly", "clean", "--offline", "-p", "bsp-server", "-p", "bsp-types"] + (["--release"] if release else []) + cfg, REPO, env)
            rc, o = run(cmd + cfg, REPO, env)
            if rc == 0 and missing():
                shutil.rmtree(tgt, ignore_errors=True)
                rc, o = run(cmd + cfg, REPO, env)
            if rc != 0:
                raise Broken("cargo check of /repo failed:\n" + o[-6000:])
            if missing():
                raise Broken("no facts were written for " + ", ".join(missing()))
            open(done, "w").close()
        res = {}
        for c in ("bsp_server", "bsp_types"):
            with open(os.path.join(out, c + ".json")) as fh:
                res[c] = json.load(fh)
    return res


if __name__ == "__main__":
    f = extract()
    for c in f:
        print(c, len(f[c]["fns"]), "functions")
