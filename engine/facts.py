"""Produces (or re-uses, keyed by a content hash of the analysed source) the fact file of /repo."""
import hashlib, os, subprocess, sys, shutil, fcntl, json, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ODS_REPO", "/repo")
BUILD = os.environ.get("ODS_BUILD", os.path.join(VERIF, ".build"))


class BuildError(Exception):
    pass


def _env():
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.pop("RUSTUP_TOOLCHAIN", None)
    env["RUSTC_WRAPPER"] = ""
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    return env


def tree_files():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(base, f))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs", "crate.md", ".cargo/config.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def tree_hash(extra=b""):
    h = hashlib.sha256()
    for p in tree_files():
        h.update(os.path.relpath(p, REPO).encode())
        h.update(b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(extra)
    return h.hexdigest()


def run(cmd, env, cwd, log):
    with open(log, "ab") as lf:
        lf.write((" ".join(cmd) + "\n").encode())
        lf.flush()
        r = subprocess.run(cmd, env=env, cwd=cwd, stdout=lf, stderr=lf)
    return r.returncode


def build_driver():
    d = os.path.join(VERIF, "driver")
    src = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs"):
        src.update(open(os.path.join(d, f), "rb").read())
    tag = src.hexdigest()[:16]
    exe = os.path.join(BUILD, "driver", "odsfacts-" + tag)
    if os.path.exists(exe):
        return exe, tag
    env = _env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    log = os.path.join(BUILD, "driver.log")
    rc = run(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml")], env, d, log)
    if rc != 0:
        sys.stderr.write(open(log, errors="replace").read()[-4000:])
        raise BuildError("fact extractor does not build")
    shutil.copy2(os.path.join(BUILD, "driver", "debug", "odsfacts"), exe + ".tmp")
    os.rename(exe + ".tmp", exe)
    return exe, tag


def ensure_facts():
    os.makedirs(os.path.join(BUILD, "facts"), exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    exe, tag = build_driver()
    h = tree_hash(tag.encode())
    out = os.path.join(BUILD, "facts", h[:32] + ".jsonl")
    if os.path.exists(out):
        return out, h
    env = _env()
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env, capture_output=True, text=True).stdout.strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    env["RUSTC_WORKSPACE_WRAPPER"] = exe
    env["ODSFACTS_CRATE"] = "spreadsheet_ods"
    tmp = out + ".tmp"
    env["ODSFACTS_OUT"] = tmp
    tdir = os.path.join(BUILD, "target")
    env["CARGO_TARGET_DIR"] = tdir
    env["CARGO_INCREMENTAL"] = "0"
    for p in glob.glob(os.path.join(tdir, "debug", ".fingerprint", "spreadsheet-ods-*")):
        shutil.rmtree(p, ignore_errors=True)
    log = os.path.join(BUILD, "check.log")
    if os.path.exists(log):
        os.unlink(log)
    if os.path.exists(tmp):
        os.unlink(tmp)
    rc = run(["cargo", "+nightly", "check", "--offline", "--lib"], env, REPO, log)
    if rc != 0 or not os.path.exists(tmp) or os.path.getsize(tmp) == 0:
        sys.stderr.write(open(log, errors="replace").read()[-4000:])
        raise BuildError("could not extract facts from %s" % REPO)
    # keep the cache small
    old = sorted(glob.glob(os.path.join(BUILD, "facts", "*.jsonl*")), key=os.path.getmtime)
    for p in old[:-6]:
        if p != tmp:
            os.unlink(p)
    os.rename(tmp, out)
    return out, h


if __name__ == "__main__":
    print(ensure_facts()[0])
