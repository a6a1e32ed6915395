"""Compiles the workspace with the fact-extracting rustc wrapper and returns the directory holding the facts.

The workspace is type-checked afresh from /repo's working tree on every run; only third-party dependencies are reused."""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
REPO = os.environ.get("VERIF_REPO", "/repo")
CONFIGS = {
    "all": ["--workspace", "--all-features"],
    "default": ["--workspace"],
    "core-min": ["-p", "stuart_core", "--no-default-features"],
}


def env(config):
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout.decode("utf8", "replace")
    for kv in out.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            e[k] = v
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target-" + config)
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    return e


def sysroot(e):
    return subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True, check=True).stdout.strip()


def driver(e):
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "driver-" + h)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["rustc", "-O", "--edition", "2021", "-Awarnings", src, "-o", tmp], env=e, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr)
            raise SystemExit("cannot build the fact extractor")
        os.rename(tmp, out)
    return out


def extract(config="all"):
    os.makedirs(BUILD, exist_ok=True)
    e = env(config)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver(e)
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(e), "lib")
        facts = tempfile.mkdtemp(prefix="facts-", dir=BUILD)
        e["VERIF_FACTS_DIR"] = facts
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        # the workspace crates are always re-checked; dependencies stay warm
        subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "stuart_core", "-p", "stuart"], cwd=REPO, env=e, capture_output=True)
        r = subprocess.run(["cargo", "check", "--locked", "--offline", "-q"] + CONFIGS[config], cwd=REPO, env=e, capture_output=True, text=True)
        if r.returncode or not os.path.exists(os.path.join(facts, "stuart_core.json")):
            sys.stderr.write(r.stderr[-6000:])
            shutil.rmtree(facts, ignore_errors=True)
            raise SystemExit(2)
    return facts


if __name__ == "__main__":
    if "--setup" in sys.argv:
        for c in ("all",):
            shutil.rmtree(extract(c), ignore_errors=True)
        print("setup done")
    else:
        print(extract(sys.argv[1] if len(sys.argv) > 1 else "all"))
