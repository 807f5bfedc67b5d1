"""Builds the compiler driver and, from /repo's working tree, the crates under analysis."""
import hashlib, json, os, re, resource, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
WORK = os.environ.get("VT_WORK", os.path.join(VERIF, ".work"))


class BuildError(Exception):
    pass


def sysroot():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("no nightly toolchain: " + r.stderr)
    return r.stdout.strip()


_SYS = None


def env(extra=None):
    global _SYS
    if _SYS is None:
        _SYS = sysroot()
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO") and k not in ("CARGO_HOME",):
            del e[k]
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTC_BOOTSTRAP", None)
    e["LD_LIBRARY_PATH"] = os.path.join(_SYS, "lib")
    e["CARGO_NET_OFFLINE"] = "true"
    if extra:
        e.update(extra)
    return e


def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def repo_files():
    out = []
    for base in ("src", "impl/src", "build"):
        for dp, _, fs in os.walk(os.path.join(REPO, base)):
            for f in fs:
                if f.endswith(".rs"):
                    out.append(os.path.join(dp, f))
    for f in ("build.rs", "Cargo.toml", "impl/Cargo.toml", "README.md"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return sorted(out)


def repo_hash():
    return _hash(repo_files())


def driver():
    src = os.path.join(VERIF, "driver")
    files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".rs"))
    v = subprocess.run(["rustc", "+nightly", "-V"], capture_output=True, text=True).stdout
    tag = _hash(files) + hashlib.sha256(v.encode()).hexdigest()[:8]
    d = os.path.join(WORK, "bin")
    out = os.path.join(d, "vtdriver-" + tag)
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", os.path.join(src, "driver.rs"), "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("the analysis driver does not build:\n" + r.stderr[-4000:])
    os.replace(tmp, out)
    return out


class Deps:
    """The crates under analysis as compiled for one configuration."""

    def __init__(self, kind, libs, libdirs, facts):
        self.kind, self.libs, self.libdirs, self.facts = kind, libs, libdirs, facts


def deps(kind, gma=True):
    """kind: std | nostd | full.  gma=False: as for compilers without error_generic_member_access."""
    drv = driver()
    hd = os.path.join(VERIF, "harness", kind)
    hh = _hash([os.path.join(hd, "Cargo.toml"), os.path.join(hd, "Cargo.lock"), os.path.join(hd, "src", "lib.rs")])
    tag = "%s-%s%s" % (kind, repo_hash() + hh + os.path.basename(drv)[-24:-16], "" if gma else "-nogma")
    # One stamp per target directory: it names the sources whose build the directory holds now.
    stamp = os.path.join(WORK, "deps", "%s%s.json" % (kind, "" if gma else "-nogma"))
    if os.path.exists(stamp):
        j = json.load(open(stamp))
        if j["tag"] == tag:
            return Deps(kind, j["libs"], j["libdirs"], j["facts"])
        os.remove(stamp)
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    target = os.path.join(WORK, "target", kind + ("" if gma else "-nogma"))
    # A fresh build of the crates under analysis each time their sources change.
    shutil.rmtree(target, ignore_errors=True)
    os.makedirs(target)
    hdir = os.path.join(WORK, "harness", kind + ("" if gma else "-nogma"))
    shutil.rmtree(hdir, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "harness", kind), hdir)
    ct = os.path.join(hdir, "Cargo.toml")
    t = open(ct).read().replace('path = "/repo"', 'path = "%s"' % REPO)
    open(ct, "w").write(t)
    facts = {c: os.path.join(target, c + ".facts.json") for c in ("thiserror", "thiserror_impl")}
    ex = {
        "CARGO_TARGET_DIR": target,
        "RUSTC_WRAPPER": drv,
        "VT_TARGETS": "thiserror=audit=%s;thiserror_impl=audit=%s" % (facts["thiserror"], facts["thiserror_impl"]),
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0",
    }
    if not gma:
        # The documented way in which the build script is told not to use unstable features.
        ex["RUSTC_STAGE"] = "1"
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--locked", "--message-format=json"],
                       cwd=hdir, env=env(ex), capture_output=True, text=True)
    if r.returncode:
        msgs = []
        for line in r.stdout.splitlines():
            try:
                j = json.loads(line)
                if j.get("reason") == "compiler-message":
                    msgs.append(j["message"].get("rendered") or "")
            except ValueError:
                pass
        raise BuildError("the code under analysis does not build (%s):\n%s\n%s" % (kind, "\n".join(msgs)[-4000:], r.stderr[-3000:]))
    libs = {}
    for line in r.stdout.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("reason") == "compiler-artifact":
            for f in j["filenames"]:
                n = j["target"]["name"].replace("-", "_")
                if f.endswith(".rmeta") or f.endswith(".so") or n not in libs and f.endswith(".rlib"):
                    libs[n] = f
    libdirs = sorted({os.path.dirname(f) for f in libs.values()})
    for c in ("thiserror", "thiserror_impl"):
        if not os.path.exists(facts[c]):
            raise BuildError("no facts were extracted for " + c)
    json.dump({"tag": tag, "libs": libs, "libdirs": libdirs, "facts": facts}, open(stamp, "w"))
    return Deps(kind, libs, libdirs, facts)


# Set once an input has been found on which the compiler does not come to an end: the rest is not worth waiting for.
HANG = {"found": False}
# Seconds for a batch, then for its parts when it did not end in that time.
PATIENCE = [150, 40]


def limited(cmd, e, timeout=None):
    """Runs the compiler with bounded time and memory: (exit status, stderr). An expansion without end is a verdict, too."""
    pr = subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        resource.prlimit(pr.pid, resource.RLIMIT_AS, (MEMORY, MEMORY))
    except OSError:
        pass
    try:
        _, err = pr.communicate(timeout=timeout or PATIENCE[0])
        return pr.returncode, err
    except subprocess.TimeoutExpired:
        pr.kill()
        pr.communicate()
        return -1, "timeout: the compiler does not come to an end"


MEMORY = 4 << 30


class Compiled:
    def __init__(self, ok, diags, facts, raw):
        self.ok, self.diags, self.facts, self.raw = ok, diags, facts, raw


def compile_witness(d, name, text, edition="2021", facts=True, extra=(), lib="thiserror", extern=True,
                    timeout=None, tool=None):
    """Compiles one generated crate against the code under analysis; nothing is run."""
    drv = tool or driver()
    wd = os.path.join(WORK, "wit")
    os.makedirs(wd, exist_ok=True)
    src = os.path.join(wd, name + ".rs")
    open(src, "w").write(text)
    out = os.path.join(wd, name + ".facts.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [drv, "rustc", "--crate-name", name, "--edition", edition, "--crate-type", "lib", "--emit", "metadata",
           "-o", os.path.join(wd, "lib%s.rmeta" % name), "--error-format=json", "--json=diagnostic-rendered-ansi".replace("-rendered-ansi", "-short"),
           "-Zflatten-format-args=no",
           src]
    if extern:
        cmd += ["--extern", "%s=%s" % (lib, d.libs["thiserror"])]
        if "anyhow" in d.libs:
            cmd += ["--extern", "anyhow=" + d.libs["anyhow"]]
    for l in d.libdirs:
        cmd += ["-L", "dependency=" + l]
    cmd += list(extra)
    ex = {"VT_TARGETS": "%s=witness=%s" % (name, out) if facts else ""}
    rc, err = limited(cmd, env(ex), timeout)
    diags = []
    other = []
    for line in err.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            other.append(line)
            continue
        if j.get("$message_type", "diagnostic") == "diagnostic":
            diags.append(j)
    f = None
    if facts and os.path.exists(out):
        f = json.load(open(out))
    return Compiled(rc == 0, diags, f, "\n".join(other))


def died(c):
    """The compiler ended without saying anything: it crashed, ran out of memory or was stopped."""
    return not c.ok and not any(d["level"].startswith("error") for d in c.diags)


def verdict_of_death(c):
    """What to say about the single input whose compilation ended so."""
    if "timeout" in c.raw:
        HANG["found"] = True
        return "expanding and compiling it does not come to an end"
    return "the compiler dies on it: " + " ".join(c.raw.split())[:300]
