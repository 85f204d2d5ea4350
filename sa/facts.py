"""Obtains the facts (type-checked program) of /repo's current working tree.

The driver in /verif/driver is injected as RUSTC_WORKSPACE_WRAPPER under
`cargo +nightly check --workspace --all-features`, so the sources, features and
dependencies are those of the real build.  Facts are cached by a digest of every
input of that build under /verif/build, so the checks of one tree share a run.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
CRATES = ["vimwiki", "vimwiki_cli", "vimwiki_core", "vimwiki_macros", "vimwiki_wasm"]


class Inconclusive(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)


def lib_dir():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"],
                       stdout=subprocess.PIPE, text=True, check=True)
    return os.path.join(r.stdout.strip(), "lib")


def build_driver():
    exe = os.path.join(BUILD, "driver", "release", "mirfacts")
    srcs = [os.path.join(VERIF, "driver", "Cargo.toml"),
            os.path.join(VERIF, "driver", "src", "main.rs")]
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(s) for s in srcs):
        return exe
    r = sh(["cargo", "+nightly", "build", "--release", "--offline"],
           env={"CARGO_TARGET_DIR": os.path.join(BUILD, "driver")},
           cwd=os.path.join(VERIF, "driver"))
    if r.returncode != 0:
        raise Inconclusive("the facts driver does not build:\n" + r.stdout[-3000:])
    os.utime(exe)
    return exe


def inputs():
    """Every file the build of the workspace reads (tracked or not), except output."""
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "target", "node_modules"))
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    return out


def digest():
    h = hashlib.sha256()
    for p in inputs():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            pass
        h.update(b"\0")
    with open(os.path.join(VERIF, "driver", "src", "main.rs"), "rb") as f:
        h.update(f.read())
    h.update(REPO.encode())
    return h.hexdigest()[:24]


def forget(tgt):
    """cargo's records of our crates, in either layout of its target directory"""
    for d, name in ((".fingerprint", lambda n: n.rsplit("-", 1)[0]), ("build", lambda n: n)):
        fp = os.path.join(tgt, "debug", d)
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if name(n).replace("-", "_") in CRATES:
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)


def missing(out):
    return [c for c in CRATES if not os.path.exists(os.path.join(out, c + ".json"))]


def check(tgt, src, exe, out):
    return sh(["cargo", "+nightly", "check", "--workspace", "--offline", "--all-features"],
           env={"CARGO_TARGET_DIR": tgt, "RUSTC_WORKSPACE_WRAPPER": exe,
                "LD_LIBRARY_PATH": lib_dir(), "MIRFACTS_OUT": out,
                "CARGO_INCREMENTAL": "0"},
           cwd=src)


def facts_dir():
    """Path of a directory with <crate>.json of the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        dg = digest()
        out = os.path.join(BUILD, "facts", dg)
        if os.path.exists(os.path.join(out, "done")):
            return out
        exe = build_driver()
        root = os.path.join(BUILD, "facts")
        if os.path.isdir(root):
            for old in os.listdir(root):
                shutil.rmtree(os.path.join(root, old), ignore_errors=True)
        os.makedirs(out)
        # A copy of the tree, so that nothing is written in /repo (Cargo.lock).
        src = os.path.join(BUILD, "src")
        sync(src)
        tgt = os.path.join(BUILD, "check")
        # cargo silently skips the wrapper on a fresh target: forget our crates
        forget(tgt)
        r = check(tgt, src, exe, out)
        if r.returncode != 0 or missing(out):
            # a build that was interrupted, or a layout of the target directory that is not known: start afresh
            shutil.rmtree(tgt, ignore_errors=True)
            r = check(tgt, src, exe, out)
        if r.returncode != 0:
            ls = r.stdout.splitlines()
            es = [i for i, l in enumerate(ls) if l.startswith("error")]
            raise Inconclusive("the workspace does not build for analysis:\n" + "\n".join(x for i in es[:5] for x in ls[i:i + 8]) + "\n" + r.stdout[-1500:])
        for c in missing(out):
            raise Inconclusive("no facts for crate " + c + "\n" + r.stdout[-2000:])
        with open(os.path.join(out, "done"), "w") as f:
            f.write(dg)
        return out


def sync(src):
    keep = set()
    for p in inputs():
        rel = os.path.relpath(p, REPO)
        keep.add(rel)
        q = os.path.join(src, rel)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if os.path.islink(p):
            if os.path.lexists(q):
                os.unlink(q)
            os.symlink(os.readlink(p), q)
            continue
        with open(p, "rb") as f:
            data = f.read()
        try:
            with open(q, "rb") as f:
                if f.read() == data:
                    continue
        except OSError:
            pass
        with open(q, "wb") as f:
            f.write(data)
    for d, ds, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), src)
            if rel not in keep and rel != "Cargo.lock":
                os.unlink(os.path.join(d, f))


if __name__ == "__main__":
    t = time.time()
    print(facts_dir(), "%.1fs" % (time.time() - t))
