"""Configurations in which the derived code alone is type-checked: no_std crates, and the stable toolchain."""
import concurrent.futures, json, os, re, shutil, subprocess
from . import build, compare

NOSTD_HEAD = "#![no_std]\n#![feature(error_generic_member_access)]\n#![allow(warnings)]\nextern crate alloc;\n"
NOSTD_SUP = re.sub(r"(?m)^.*std::(backtrace|path)::.*$", "", compare.SUP).replace("std::sync::Arc", "alloc::sync::Arc").replace("std::rc::Rc", "alloc::rc::Rc").replace(
    "pub type StdBox<T> = Box<T>;", "pub use alloc::{boxed::Box, string::{String, ToString}, vec::Vec, format, vec, borrow::ToOwned};\n pub type StdBox<T> = Box<T>;").replace("std::", "core::")
STABLE_HEAD = "#![allow(warnings)]\n"


class Pw:
    def __init__(self, key, body):
        self.key, self.body = key, body

    def text(self, n):
        return "pub mod w%d { use super::sup::*;\n%s\n}" % (n, self.body.replace("super::super::sup", "super::sup"))


def portable(w):
    """Nothing of std in the text itself."""
    t = w.shape.derived()
    return not re.search(r"std::|Path|Trace|Backtrace|println|HashMap|\bio\b|anyhow|lk::m", t)


def stable_deps(kind):
    """thiserror as the installed stable toolchain builds it."""
    hd = os.path.join(build.VERIF, "harness", kind)
    tag = "stable-%s-%s" % (kind, build.repo_hash() + build._hash([os.path.join(hd, "Cargo.toml"), os.path.join(hd, "Cargo.lock")]))
    # One stamp per target directory: it names the sources whose build the directory holds now.
    stamp = os.path.join(build.WORK, "deps", "stable-" + kind + ".json")
    if os.path.exists(stamp):
        out = json.load(open(stamp))
        if out["tag"] == tag:
            return out
        os.remove(stamp)
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    target = os.path.join(build.WORK, "target", "stable-" + kind)
    shutil.rmtree(target, ignore_errors=True)
    hdir = os.path.join(build.WORK, "harness", "stable-" + kind)
    shutil.rmtree(hdir, ignore_errors=True)
    shutil.copytree(hd, hdir)
    ct = os.path.join(hdir, "Cargo.toml")
    t = open(ct).read().replace('path = "/repo"', 'path = "%s"' % build.REPO)
    open(ct, "w").write(t)
    e = build.env({"CARGO_TARGET_DIR": target})
    e.pop("LD_LIBRARY_PATH", None)
    r = subprocess.run(["cargo", "+stable", "check", "--offline", "--locked", "--message-format=json"], cwd=hdir, env=e, capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError("the code under analysis does not build with the stable toolchain (%s): %s" % (kind, r.stderr[-3000:]))
    libs = {}
    for line in r.stdout.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("reason") == "compiler-artifact":
            for f in j["filenames"]:
                n = j["target"]["name"].replace("-", "_")
                if f.endswith(".rmeta") or f.endswith(".so"):
                    libs[n] = f
    out = {"tag": tag, "libs": libs, "libdirs": sorted({os.path.dirname(f) for f in libs.values()})}
    json.dump(out, open(stamp, "w"))
    return out


def compile_stable(d, name, text, edition, timeout=None):
    wd = os.path.join(build.WORK, "wit")
    os.makedirs(wd, exist_ok=True)
    src = os.path.join(wd, name + ".rs")
    open(src, "w").write(text)
    cmd = ["rustc", "+stable", "--crate-name", name, "--edition", edition, "--crate-type", "lib", "--emit", "metadata", "-o", os.path.join(wd, "lib%s.rmeta" % name), "--error-format=json", src,
           "--extern", "thiserror=" + d["libs"]["thiserror"]]
    if "anyhow" in d["libs"]:
        cmd += ["--extern", "anyhow=" + d["libs"]["anyhow"]]
    for l in d["libdirs"]:
        cmd += ["-L", "dependency=" + l]
    e = build.env()
    e.pop("LD_LIBRARY_PATH", None)
    rc, err = build.limited(cmd, e, timeout)
    diags, other = [], []
    for line in err.splitlines():
        try:
            diags.append(json.loads(line))
        except ValueError:
            other.append(line)
    return build.Compiled(rc == 0, diags, None, "\n".join(other))


def run(name, ws, compile, head, sup, after=None, chunk=150, jobs=8):
    """Type-checks each input on its own side; inputs that fail are violations. after(c): crate-wide complaints."""
    res = compare.Result()

    def one(nm, live, part=False):
        r = compare.Result()
        pre = head + sup
        first = live
        for attempt in range(8):
            if build.HANG["found"] or not live:
                break
            text = pre + "\n".join(w.text(n) for n, w in live) + "\n"
            c = compile(nm, text, build.PATIENCE[part])
            if c.ok:
                break
            lm = compare.line_map(live, pre.count("\n"))
            bad = {}
            for x in c.diags:
                if x["level"].startswith("error") and not x["message"].startswith("aborting"):
                    o = compare.owner(x, lm, nm + ".rs")
                    if o is not None:
                        bad.setdefault(o, x["message"] + " " + compare.first_line(x))
            if not bad:
                if len(live) > 1:
                    h = len(live) // 2
                    for s, sub in (("a", live[:h]), ("b", live[h:])):
                        r2 = one(nm + s, sub, True)
                        r2.n = 0
                        compare.merge(r, r2)
                    r.n += len(first)
                    return r
                bad = {live[0][0]: build.verdict_of_death(c) if build.died(c) else " ".join(x["message"] for x in c.diags if x["level"].startswith("error"))}
            byn = dict(live)
            for n, m in bad.items():
                r.viol.append((byn[n], "compile", "this valid input does not compile: " + m))
            live = [(n, w) for n, w in live if n not in bad]
        # Every round that left the loop unsettled has recorded at least one input that does not compile.
        r.n += len(first)
        r.fns += len(first)
        if after and live and c.ok and not build.HANG["found"]:
            for t in after(c):
                r.viol.append((live[0][1], "crate", t))
        if first:
            r.samples.append(first[0][1])
        return r
    ws = list(enumerate(ws))
    chunk = max(10, min(chunk, -(-len(ws) // (2 * jobs))))
    parts = [("%s_%d" % (name, i // chunk), ws[i:i + chunk]) for i in range(0, len(ws), chunk)]
    with concurrent.futures.ThreadPoolExecutor(max_workers=jobs) as ex:
        for r in ex.map(lambda p: one(*p), parts):
            compare.merge(res, r)
    return res


def fits(edition):
    """Whether the input's own text is Rust of that edition."""
    return lambda w: fits_text(edition, w.shape.derived())


def fits_text(edition, t):
    return edition != "2024" or not re.search(r"(?<!#)\bgen\b", t)


def no_provide(w):
    """Nothing in it asks for provide(), which only unstable compilers have."""
    return all(b.backtrace_field() is None for b in w.shape.bodies)
