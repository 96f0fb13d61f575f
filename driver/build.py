"""Builds the symbolic executor, the harness IR and the native replay binary from /repo's current tree."""
import fcntl, hashlib, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(V, ".build")
ENGINE = os.path.join(B, "engine/release/vse")
IR = os.path.join(B, "ir/debug/deps/vharness.ll")
REPLAY = os.path.join(B, "native/replay/replay")


def env(**kw):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e.update(kw)
    return e


def tree_hash():
    h = hashlib.sha256()
    roots = [REPO + "/src", REPO + "/lzma-rust", V + "/harness"]
    files = [REPO + "/Cargo.toml"]
    for r in roots:
        for d, dn, fn in os.walk(r):
            dn[:] = [x for x in dn if x not in ("target", ".git")]
            files += [os.path.join(d, f) for f in fn if f.endswith((".rs", ".toml", ".lock"))]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
    return h.hexdigest()


def build(log=sys.stderr):
    """Returns the list of steps that failed (empty when everything is built)."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        stamp = os.path.join(B, "stamp")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        t0 = time.time()
        hd = V + "/harness"
        if old != h or not os.path.exists(IR) or not os.path.exists(REPLAY):
            # never trust file times for the code under test
            for t in ("ir", "native"):
                if os.path.isdir(B + "/" + t):
                    subprocess.run(["cargo", "clean", "--offline", "-p", "sevenz-rust", "-p", "lzma-rust", "-p", "vharness",
                                    "--target-dir", B + "/" + t] + (["--profile", "replay"] if t == "native" else []),
                                   cwd=hd, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(stamp):
                os.remove(stamp)
        jobs = []
        if True:
            jobs.append(("engine", subprocess.Popen(
                ["cargo", "build", "--release", "--offline"], cwd=V + "/engine",
                env=env(CARGO_TARGET_DIR=B + "/engine"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        bad = []

        def wait(jobs):
            for n, p in jobs:
                o, _ = p.communicate()
                if p.returncode != 0:
                    bad.append(n)
                    print("BUILD FAILED: %s\n%s" % (n, o.decode(errors="replace")[-6000:]), file=log)

        def code(cfg):
            cfg += " --cfg aes_force_soft"
            return [
                ("ir", subprocess.Popen(
                    ["cargo", "rustc", "--offline", "--lib", "--crate-type", "cdylib", "--", "--emit=llvm-ir",
                     "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"], cwd=hd,
                    env=env(CARGO_TARGET_DIR=B + "/ir", RUSTFLAGS=cfg + " -C no-vectorize-loops -C no-vectorize-slp"),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT)),
                ("native", subprocess.Popen(
                    ["cargo", "build", "--offline", "--profile", "replay", "--bin", "replay"], cwd=hd,
                    env=env(CARGO_TARGET_DIR=B + "/native", RUSTFLAGS=cfg), stdout=subprocess.PIPE, stderr=subprocess.STDOUT))]

        HDR, LZ = "--cfg vse_hooks", "--cfg vse_hooks_lz"
        wait(jobs + code(HDR + " " + LZ))
        for cfg in (HDR, LZ, ""):
            if "ir" not in bad and "native" not in bad:
                break
            # hooks may no longer fit a restructured tree: decide what can be decided without them
            print("retrying with fewer hooks", file=log)
            bad[:] = [x for x in bad if x == "engine"]
            wait(code(cfg))
        if not bad:
            with open(stamp, "w") as f:
                f.write(h)
        print("build: %.1fs %s" % (time.time() - t0, "ok" if not bad else "FAILED " + ",".join(bad)), file=log)
        return bad


if __name__ == "__main__":
    sys.exit(1 if build() else 0)
