"""Build the MIR dump driver (if needed) and dump the current /repo tree's
monomorphised MIR.  The dump is keyed by the content of /repo/src, Cargo.toml,
the driver and the feature set, so a stale dump can never be used."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MQTT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "nightly"


class DumpError(Exception):
    pass


def _hash(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    h.update(extra.encode())
    return h.hexdigest()[:24]


def _src(repo):
    out = [os.path.join(repo, "Cargo.toml")]
    for root, dirs, files in os.walk(os.path.join(repo, "src")):
        out += [os.path.join(root, f) for f in files]
    for f in ("build.rs", ".cargo/config.toml"):
        p = os.path.join(repo, f)
        if os.path.exists(p):
            out.append(p)
    return out


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
            e.pop(k)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def build_driver():
    drv = os.path.join(VERIF, "driver")
    key = _hash([os.path.join(drv, "src/main.rs"), os.path.join(drv, "Cargo.toml")], "")
    out = os.path.join(BUILD, f"mirdump-{key}")
    if os.path.exists(out):
        return out
    e = _env()
    tgt = os.path.join(BUILD, "driver-target")
    e["CARGO_TARGET_DIR"] = tgt
    r = subprocess.run(["cargo", "build", "--offline"], cwd=drv, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise DumpError("driver build failed:\n" + r.stdout[-4000:])
    tmp = out + ".tmp"
    shutil.copy2(os.path.join(tgt, "debug/mirdump"), tmp)
    os.rename(tmp, out)
    return out


def get_dump(features=(), no_default=False, repo=None):
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _get_dump(features, no_default, repo)


def _get_dump(features, no_default, repo):
    drv = os.path.join(VERIF, "driver")
    tag = ",".join(features) + ("|nodef" if no_default else "")
    key = _hash(_src(repo) + [os.path.join(drv, "src/main.rs"), os.path.join(drv, "stop.txt")], tag + repo)
    out = os.path.join(BUILD, f"dump-{key}.json")
    if os.path.exists(out):
        os.utime(out)
        return out
    t0 = time.time()
    bin_ = build_driver()
    lock = os.path.join(repo, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock.saved"):
        shutil.copy("/opt/vp/Cargo.lock.saved", lock)
    e = _env()
    sysroot = subprocess.run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
    tname = "target-" + (hashlib.sha256((tag + repo).encode()).hexdigest()[:8])
    tgt = os.path.join(BUILD, tname)
    e["CARGO_TARGET_DIR"] = tgt
    e["RUSTC_WORKSPACE_WRAPPER"] = bin_
    tmp = out + ".tmp"
    if os.path.exists(tmp):
        os.unlink(tmp)
    e["MIRDUMP_OUT"] = tmp
    e["MIRDUMP_CRATE"] = "mqtt_protocol_core"
    e["MIRDUMP_STOP"] = os.path.join(drv, "stop.txt")
    for p in glob.glob(os.path.join(tgt, "debug/.fingerprint/mqtt-protocol-core-*")) + glob.glob(os.path.join(tgt, "debug/build/mqtt-protocol-core*")) \
            + glob.glob(os.path.join(tgt, "debug/deps/*mqtt_protocol_core*")):
        shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
    cmd = ["cargo", "check", "--lib", "--offline"]
    if no_default:
        cmd.append("--no-default-features")
    if features:
        cmd += ["--features", ",".join(features)]
    r = subprocess.run(cmd, cwd=repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(tmp):
        raise DumpError("MIR dump of %s failed (exit %d):\n%s" % (repo, r.returncode, r.stdout[-4000:]))
    os.rename(tmp, out)
    old = sorted(glob.glob(os.path.join(BUILD, "dump-*.json")), key=os.path.getmtime)[:-12]
    for p in old:
        os.unlink(p)
    sys.stderr.write("dumped MIR of %s [%s] in %.1fs\n" % (repo, tag, time.time() - t0))
    return out


if __name__ == "__main__":
    print(get_dump())
