"""Shared parts of the drivers: building, verdicts, evidence."""
import hashlib, json, os, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(ROOT, "target")


def env(**extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("VERIF_"):
            del e[k]
    e.update(
        RUSTUP_TOOLCHAIN="1.99.1",
        CARGO_NET_OFFLINE="true",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only",
        CARGO_INCREMENTAL="1",
        INSTA_UPDATE="no",
    )
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    e.update(extra)
    return e


def inconclusive(why):
    print(f"INCONCLUSIVE: {why}")
    sys.exit(2)


def sources():
    """A digest of each workspace crate's files."""
    out = {}
    for base in ("crates", "packages"):
        for crate in sorted(os.listdir(f"{REPO}/{base}")):
            h = hashlib.sha256()
            top = f"{REPO}/{base}/{crate}"
            for d, dirs, files in os.walk(top):
                dirs[:] = sorted(x for x in dirs if x not in ("node_modules", "target", "snapshots", "pkg"))
                for f in sorted(files):
                    if f.endswith((".rs", ".toml", ".md")):
                        h.update(os.path.relpath(os.path.join(d, f), top).encode())
                        h.update(open(os.path.join(d, f), "rb").read())
            out[crate] = h.hexdigest()
    return out


def refresh(manifest, target, stamp):
    """Cargo trusts modification times; make it see every change of content."""
    now = sources()
    try:
        before = json.load(open(stamp))
    except Exception:
        before = None
    if before is not None:
        for crate, digest in now.items():
            if before.get(crate) != digest:
                subprocess.run(["cargo", "clean", "--offline", "--manifest-path", manifest, "-p", crate],
                               env=env(CARGO_TARGET_DIR=target), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.makedirs(target, exist_ok=True)
    json.dump(now, open(stamp, "w"))


HOST = "x86_64-unknown-linux-gnu"


def build_harness(sanitized=False):
    """The harness, optionally with every access to memory checked."""
    t = time.time()
    target, extra, more = TARGET, {}, []
    if sanitized:
        target = f"{TARGET}/asan"
        extra = {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zsanitizer=address"}
        more = ["--target", HOST]
    refresh(f"{ROOT}/harness/Cargo.toml", target, f"{target}/harness.stamp")
    r = subprocess.run(
        ["cargo", "build", "--offline", "--locked", "--manifest-path", f"{ROOT}/harness/Cargo.toml"] + more,
        env=env(CARGO_TARGET_DIR=target, **extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode:
        print(r.stdout[-6000:])
        inconclusive("the harness does not build against the current tree")
    print(f"built in {time.time() - t:.0f}s", flush=True)
    return f"{target}/{HOST}/debug/vmon" if sanitized else f"{target}/debug/vmon"


def build_program():
    """The command line program itself, from the workspace."""
    t = time.time()
    target = f"{TARGET}/cli"
    refresh(f"{REPO}/Cargo.toml", target, f"{target}/program.stamp")
    r = subprocess.run(
        ["cargo", "build", "--offline", "--locked", "--manifest-path", f"{REPO}/Cargo.toml", "-p", "oxvg", "--bin", "oxvg"],
        env=env(CARGO_TARGET_DIR=target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode:
        print(r.stdout[-6000:])
        inconclusive("the program does not build from the current tree")
    print(f"program built in {time.time() - t:.0f}s", flush=True)
    return f"{target}/debug/oxvg"
