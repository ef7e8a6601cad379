"""Build the fact extractor if needed and dump the resolved program of /repo's working tree."""
import os, subprocess, shutil, json, hashlib, tempfile, sys, re, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN",
              "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def driver():
    """path of the extractor binary, building it when absent or stale"""
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "factdump-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    td = os.path.join(BUILD, "driver")
    e = _env()
    e["CARGO_TARGET_DIR"] = td
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--quiet", "--manifest-path",
                        os.path.join(VERIF, "driver", "Cargo.toml")], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ExtractError("building the fact extractor failed:\n" + r.stdout[-3000:])
    tmp = out + ".tmp%d" % os.getpid()
    shutil.copy2(os.path.join(td, "debug", "factdump"), tmp)
    os.replace(tmp, out)
    return out


def _stage(dst, scoped):
    """a scratch crate whose src is a copy of /repo's (optionally without the left-out modules)"""
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(dst, "src"))
    for f in ("Cargo.toml", "README.md"):
        shutil.copy2(os.path.join(REPO, f), os.path.join(dst, f))
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):
        lock = os.path.join(VERIF, "driver", "repo.Cargo.lock")
    shutil.copy2(lock, os.path.join(dst, "Cargo.lock"))
    with open(os.path.join(dst, "Cargo.toml"), "a") as f:
        f.write("\n[workspace]\n")
    if scoped:
        p = os.path.join(dst, "src", "lib.rs")
        s = open(p).read()
        s = re.sub(r"(?m)^pub mod (algebraic_numbers|prelude);$|^pub use algebraic_numbers::.*$", "", s)
        open(p, "w").write(s)


def tree_hash():
    h = hashlib.sha256()
    for root, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode())
            h.update(open(p, "rb").read())
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()[:20]


def facts(python=False):
    """returns (facts dict, info dict). Raises ExtractError when the crate does not compile."""
    drv = driver()
    sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], env=_env(),
                                      text=True).strip()
    key = "%s-%s-%s" % (tree_hash(), os.path.basename(drv), "py" if python else "nopy")
    cache = os.path.join(BUILD, "facts-" + key + ".json")
    log = ""
    if os.path.exists(cache) and os.environ.get("VERIF_NOCACHE") is None:
        d = json.load(open(cache))
        return d, d["info"]
    os.makedirs(BUILD, exist_ok=True)
    for scoped in ((False,) if python else (False, True)):
        tmp = tempfile.mkdtemp(prefix="stage-", dir=BUILD)
        try:
            _stage(tmp, scoped)
            out = os.path.join(tmp, "facts.json")
            e = _env()
            e["FACTS_OUT"] = out
            e["RUSTC_WORKSPACE_WRAPPER"] = drv
            e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
            # dependencies are reusable, the analysed crate lives in a fresh path so that cargo
            # never considers it up to date
            e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
            cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--quiet"]
            if python:
                cmd += ["--features", "python"]
            r = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True)
            if r.returncode == 0 and os.path.exists(out):
                d = json.load(open(out))
                d["info"] = {"scoped": scoped, "python": python, "log": log[-2000:]}
                with open(cache + ".tmp%d" % os.getpid(), "w") as f:
                    json.dump(d, f)
                os.replace(cache + ".tmp%d" % os.getpid(), cache)
                for f in os.listdir(BUILD):  # keep the cache small
                    if f.startswith("facts-") and f.endswith(".json") and f != os.path.basename(cache):
                        p = os.path.join(BUILD, f)
                        try:
                            if time.time() - os.path.getmtime(p) > 3600:
                                os.remove(p)
                        except OSError:
                            pass
                return d, d["info"]
            log += r.stdout
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    raise ExtractError("the crate does not compile:\n" + log[-3000:])


if __name__ == "__main__":
    d, i = facts("--python" in sys.argv)
    print(i, {k: len(v) for k, v in d.items()})
