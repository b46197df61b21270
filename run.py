#!/usr/bin/env python3
"""Builds what a check needs from /repo's working tree and runs the check.

run.py setup                   build everything once (so that checks only build what changed)
run.py check PROPERTY TIER     quick or thorough; writes evidence/PROPERTY.json
run.py replay FILE             execute a recorded violation again, with every call shown

/repo is only read: its sources are mirrored into .build/src, and the contracts' wasm is built there.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(HERE, ".build"))
SRC = os.path.join(BUILD, "src")
WASM = os.path.join(SRC, "target/wasm32-unknown-unknown/release")

# contract directory -> (package, contracts whose wasm it embeds, cargo options)
CONTRACTS = {
    "token": ("soroban-token-contract", [], []),
    "stake_rewards": ("phoenix-stake-rewards", ["token"], []),
    "stake": ("phoenix-stake", ["token", "stake_rewards"], []),
    "pool": ("phoenix-pool", ["token", "stake"], []),
    "pool_stable": ("phoenix-pool-stable", ["token", "stake"], []),
    "factory": ("phoenix-factory", ["token", "stake", "pool", "pool_stable"], []),
    "multihop": ("phoenix-multihop", ["token", "pool", "pool_stable", "factory"], []),
    "trader": ("phoenix-trader", ["token", "pool"], []),
    "vesting": ("phoenix-vesting", ["token"], ["--all-features"]),
}
# what each property's scenarios deploy
NEEDS = {
    "P01": ["token"],
    "P02": ["pool"], "P03": ["pool"], "P04": ["pool"], "P05": ["pool"], "P06": ["pool"],
    "P07": ["pool_stable"], "P08": ["pool_stable"], "P09": ["pool_stable"], "P10": ["pool_stable"], "P28": ["pool_stable"],
    "P11": ["stake"], "P12": ["stake"], "P13": ["stake"],
    "P14": ["stake_rewards"],
    "P15": ["vesting"], "P16": ["vesting"],
    "P17": ["factory"], "P18": ["factory"],
    "P19": ["multihop"], "P20": ["multihop"],
    "P21": ["trader", "factory"],
}
NATIVE = {"P24", "P25"}
TAXED = {"P02", "P07"}
LIB = {"token": "soroban_token_contract"}


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.79.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def cargo(args, cwd, extra=None):
    e = env()
    e.update(extra or {})
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        sys.stderr.write("\nNO ANSWER: cargo %s failed\n" % " ".join(args))
        sys.exit(2)


def put(path, data):
    """Write only what differs, so that cargo sees exactly the files that changed."""
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def mirror():
    seen = set()
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = [d for d in dirs if d not in (".git", "node_modules") and not (d == "target" and rel == ".")]
        for f in files:
            p = os.path.join(root, f)
            if os.path.islink(p) or not f.endswith((".rs", ".toml", ".lock", ".md", ".wasm", ".json")):
                continue
            r = os.path.normpath(os.path.join(rel, f))
            if "test_snapshots" in r:
                continue
            seen.add(r)
            with open(p, "rb") as fh:
                put(os.path.join(SRC, r), fh.read())
    for root, dirs, files in os.walk(SRC):
        rel = os.path.relpath(root, SRC)
        if rel == ".":
            dirs[:] = [d for d in dirs if d != "target"]
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r not in seen:
                os.remove(os.path.join(SRC, r))


def wasm_path(c):
    return os.path.join(WASM, LIB.get(c, "phoenix_" + c) + ".wasm")


def sha(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def build_contracts(which):
    todo = []

    def add(c):
        for d in CONTRACTS[c][1]:
            add(d)
        if c not in todo:
            todo.append(c)

    for c in which:
        add(c)
    stamps = os.path.join(BUILD, "stamps")
    os.makedirs(stamps, exist_ok=True)
    for c in todo:
        pkg, deps, opts = CONTRACTS[c]
        # cargo does not see that a crate embeds other contracts' wasm
        key = "\n".join("%s %s" % (d, sha(wasm_path(d))) for d in deps)
        stamp = os.path.join(stamps, c)
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != key:
            if os.path.exists(stamp):
                os.remove(stamp)
            fp = os.path.join(WASM, ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if re.fullmatch(re.escape(pkg) + "-[0-9a-f]{16}", n):
                        shutil.rmtree(os.path.join(fp, n))
        cargo(["build", "--offline", "--locked", "--release", "--target", "wasm32-unknown-unknown", "-p", pkg] + opts, SRC)
        with open(stamp, "w") as f:
            f.write(key)


def build_taxed():
    """A token of which less arrives than is sent; it is not the repository's."""
    crate = os.path.join(BUILD, "taxcrate")
    for n in ("Cargo.toml", "Cargo.lock", "src/lib.rs"):
        with open(os.path.join(HERE, "tax", n), "rb") as f:
            put(os.path.join(crate, n), f.read())
    cargo(["build", "--offline", "--locked", "--release", "--target", "wasm32-unknown-unknown"], crate, {"CARGO_TARGET_DIR": os.path.join(SRC, "target")})


def build_mc():
    cargo(["build", "--offline", "--locked", "--release"], os.path.join(HERE, "mc"), {"CARGO_TARGET_DIR": os.path.join(BUILD, "mc")})
    return os.path.join(BUILD, "mc/release/mc")


def build_native():
    """The exploration of the library packages, compiled against the mirrored sources."""
    crate = os.path.join(BUILD, "pkcrate")
    with open(os.path.join(HERE, "pk/Cargo.toml")) as f:
        put(os.path.join(crate, "Cargo.toml"), f.read().replace('"/repo/', '"%s/' % SRC).encode())
    if not os.path.exists(os.path.join(crate, "Cargo.lock")):
        shutil.copy(os.path.join(HERE, "pk/Cargo.lock"), os.path.join(crate, "Cargo.lock"))
    for n in os.listdir(os.path.join(HERE, "pk/src")):
        with open(os.path.join(HERE, "pk/src", n), "rb") as f:
            put(os.path.join(crate, "src", n), f.read())
    cargo(["build", "--offline", "--release"], crate, {"CARGO_TARGET_DIR": os.path.join(BUILD, "pk")})
    return os.path.join(BUILD, "pk/release/pk")


def main():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    cmd = sys.argv[1]
    ev = os.environ.get("MC_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(ev, exist_ok=True)
    e = env()
    e["MC_WASM"] = WASM
    kf = os.path.join(HERE, "known_findings.json")
    if cmd == "setup":
        mirror()
        build_contracts(list(CONTRACTS))
        build_taxed()
        build_mc()
        build_native()
        return 0
    if cmd == "check":
        prop, tier = sys.argv[2], sys.argv[3]
        # no evidence of an earlier run may be taken for this one's
        try:
            os.remove(os.path.join(ev, prop + ".json"))
        except FileNotFoundError:
            pass
        mirror()
        if prop in NATIVE:
            exe = build_native()
        else:
            build_contracts(NEEDS.get(prop, list(CONTRACTS)))
            if prop in TAXED:
                build_taxed()
            exe = build_mc()
        lock.close()
        sys.stdout.flush()
        return subprocess.run([exe, "check", prop, tier, ev, kf], env=e).returncode
    if cmd == "replay":
        import json
        prop = json.load(open(sys.argv[2]))["property"]
        mirror()
        if prop in NATIVE:
            return subprocess.run([build_native(), "replay", sys.argv[2]], env=e).returncode
        build_contracts(NEEDS.get(prop, list(CONTRACTS)))
        if prop in TAXED:
            build_taxed()
        return subprocess.run([build_mc(), "replay", sys.argv[2]], env=e).returncode
    print(__doc__)
    return 2


sys.exit(main())
