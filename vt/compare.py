"""Compiles batches of shapes and compares what the derive generated with the reference impls."""
import concurrent.futures, os, re
from . import build, names

SUP = r'''
pub mod sup {
    #![allow(dead_code, unused)]
    pub use std::backtrace::Backtrace;
    pub use std::sync::Arc;
    pub use core::option::Option;
    pub use std::rc::Rc;
    pub use std::path::{Path, PathBuf};
    pub use std::panic::UnwindSafe;
    pub use std::marker::PhantomData;
    pub type StdBox<T> = Box<T>;
    macro_rules! err { ($($n:ident)*) => { $(
        #[derive(Debug)] pub struct $n;
        impl std::fmt::Display for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(stringify!($n)) } }
        impl std::error::Error for $n {}
    )* } }
    err!(E0 E1 E2 E3 E4 E5 E6 E7 E8 E9 Optional Backtraces OptionE);
    #[derive(Debug)] pub struct G<T>(pub T);
    impl<T: std::fmt::Display> std::fmt::Display for G<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
    impl<T: std::fmt::Debug + std::fmt::Display> std::error::Error for G<T> {}
    #[derive(Debug, Clone, Copy)] pub struct Sh { pub lo: usize, pub hi: (u8, (i8, u16)) }
    #[derive(Debug)] pub struct Tup(pub usize, pub (i32, i64), pub [u8; 4]);
    pub trait Tr { type A; type B; }
    pub trait Mk: Sized { fn mk(&self) -> i32 { 0 } }
    impl<T> Mk for T {}
    pub fn id<T>(t: T) -> T { t }
    pub fn two<A, B>(a: A, _b: B) -> A { a }
    pub fn pick(b: &bool, x: i32, y: i32) -> i32 { if *b { x } else { y } }
    pub const K: i32 = 7;
    pub const LIMIT: usize = 9;
    pub mod lk {
        macro_rules! e { ([$($g:tt)*] $t:ty) => {
            impl<$($g)*> core::fmt::Display for $t { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("lk") } }
            impl<$($g)*> core::error::Error for $t {}
        } }
        #[derive(Debug)] pub struct Backtrace<T>(pub T);
        e!([T: core::fmt::Debug] Backtrace<T>);
        pub mod a { pub type Option = super::super::E0; }
        pub mod b { #[derive(Debug)] pub struct Option<A, B>(pub A, pub B); e!([A: core::fmt::Debug, B: core::fmt::Debug] Option<A, B>); }
        pub mod c { #[derive(Debug)] pub struct Option<'a>(pub &'a i32); e!(['a] Option<'a>); }
        pub mod d { #[derive(Debug)] pub struct Option<const N: usize>(pub [u8; N]); e!([const N: usize] Option<N>); }
        pub mod p { #[derive(Debug)] pub struct PathBuf; e!([] PathBuf); #[derive(Debug)] pub struct Path(pub i32); e!([] Path); }
        pub mod x { #[derive(Debug)] pub struct Box<A>(pub A); e!([A: core::fmt::Debug] Box<A>); }
        pub mod z { pub type Backtrace = std::backtrace::Backtrace; }
        pub type Trace = std::backtrace::Backtrace;
        //NEAR
    }
}
'''.replace("//NEAR", "\n".join(("", names.NEAR_SUP, names.DEEP_SUP, names.MODS_SUP)))
HEAD = "#![feature(error_generic_member_access)]\n#![allow(warnings)]\n"


class Witness:
    def __init__(self, key, shape, tags=()):
        self.key, self.shape, self.tags = key, shape, set(tags) | shape.tags

    def text(self, n):
        s = self.shape
        o = ["pub mod w%d {" % n, "pub mod d { %s use super::super::sup::*;" % s.inner, s.derived(), "}"]
        for alt in s.alts():
            o += ["pub mod r%d { %s use super::super::sup::*;" % (alt, s.inner), s.reference(alt), "}"]
        o.append("}")
        return "\n".join(o)


WS = re.compile(r"w(\d+)::(d|r\d+)(?=::|$|>|\b)")
CLO = re.compile(r"\{(?:async |gen |async gen )?(?:closure|block|fn body)[^{}]*@[^{}]*\}|DefId\([^()]*\)")


def norm(s):
    return CLO.sub("{closure}", WS.sub("W", s))


AUTO = re.compile(r"dyn std::error::Error((?: \+ std::marker::Send| \+ std::marker::Sync| \+ std::panic::UnwindSafe)+)")


def normp(s):
    # A method called through `dyn Error + Send + Sync` is the one called through `dyn Error`.
    return AUTO.sub("dyn std::error::Error", norm(s))


def conflict(ca, cb):
    d = {}
    for k, v in ca:
        d.setdefault(k, []).append(v)
    for k, v in cb:
        for u in d.get(k, ()):
            if u == v:
                continue
            nu, nv = u.startswith("!"), v.startswith("!")
            if not nu and not nv:
                return True
            if nu and not nv and v in u[1:].split("|"):
                return True
            if nv and not nu and u in v[1:].split("|"):
                return True
    return False


def npaths(fn, default):
    if fn is None:
        return default
    if fn["paths"] is None:
        return None
    if fn["overflow"]:
        return None
    return [([tuple(map(normp, c)) for c in p["c"]], [normp(e) for e in p["e"]], normp(p["r"])) for p in fn["paths"]]


NONE = "std::option::Option<&dyn std::error::Error>::None{}"
DEFAULTS = {
    "source": [([], [], NONE)],
    "provide": [([], [], "()")],
}


def show(p):
    return "when [%s]: effects %s -> %s" % (", ".join("%s is %s" % c for c in p[0]), p[1], p[2])


def diff_paths(name, a, b):
    """None when equal, else a description. a: derived, b: reference."""
    if a is None or b is None:
        return "%s: the body could not be summarised (%s)" % (name, "derived" if a is None else "reference")
    if not a and not b:
        return None
    if not a or not b:
        return "%s: one side has no reachable path (derived %d, reference %d)" % (name, len(a), len(b))
    for p in a:
        for q in b:
            if conflict(p[0], q[0]):
                continue
            if p[1] != q[1] or p[2] != q[2]:
                return "%s: derived  %s\n      expected %s" % (name, show(p), show(q))
    return None


def impl_key(i):
    return norm(i["trait_full"]) if i["trait"] else "inherent impl"


def collect(facts):
    """{n: {"d": {traitkey: [impls]}, "r0": ...}}"""
    out = {}
    for i in facts["impls"]:
        # Items of a nested module, or of a block inside a function, are the user's own.
        m = re.match(r"w(\d+)::(d|r\d+)$", i["module"])
        if not m or i["derive"] not in (None, "Error") or i["in_fn"]:
            continue
        out.setdefault(int(m.group(1)), {}).setdefault(m.group(2), {}).setdefault(impl_key(i), []).append(i)
    return out


ASPECTS = ("impls", "display", "source", "provide", "from", "preds", "attrs")


def compare_one(per, aspects):
    """per: {"d": impls, "r0": impls, ...}. Returns list of (aspect, text)."""
    d = per.get("d", {})
    alts = sorted(k for k in per if k != "d")
    best = None
    for r in alts:
        rr = per[r]
        bad = []
        if "api" in aspects:
            for k, v in d.items():
                for i in v:
                    for x in [i["trait_full"], i["self"]] + i["preds"]:
                        if re.search(r"\bthiserror(_impl)?::", x):
                            bad.append(("api", "an item of thiserror appears in the interface of the impl of %s: %s" % (k, norm(x))))
        if "impls" in aspects:
            dk = sorted((k, len(v)) for k, v in d.items())
            rk = sorted((k, len(v)) for k, v in rr.items())
            if dk != rk:
                bad.append(("impls", "trait impls generated: %s; expected: %s" % (dk, rk)))
        for k, v in rr.items():
            t = v[0]["trait"].rsplit("::", 1)[-1]
            if t not in ("Error", "Display", "From"):
                continue
            if k not in d:
                want = {"Error": {"source", "provide"}, "Display": {"display"}, "From": {"from"}}[t]
                for a in want & set(aspects):
                    bad.append((a, "no impl of %s was generated" % k))
                continue
            x, y = d[k][0], v[0]
            if "preds" in aspects:
                a, b = sorted(map(norm, x["preds"])), sorted(map(norm, y["preds"]))
                if a != b:
                    bad.append(("preds", "where-clause of the %s impl: extra %s, missing %s" % (
                        t, [q for q in a if q not in b], [q for q in b if q not in a])))
                if norm(x["self"]) != norm(y["self"]) or x["generics"] != y["generics"]:
                    bad.append(("preds", "impl header: %s %s; expected %s %s" % (x["generics"], norm(x["self"]), y["generics"], norm(y["self"]))))
            if "attrs" in aspects and "automatically_derived" not in x["attrs"]:
                bad.append(("attrs", "impl of %s lacks #[automatically_derived]" % k))
            fns = {"Error": ("source", "provide"), "Display": ("fmt",), "From": ("from",)}[t]
            for f in fns:
                asp = {"fmt": "display"}.get(f, f)
                if asp not in aspects:
                    continue
                p = npaths(x["fns"].get(f), DEFAULTS.get(f))
                q = npaths(y["fns"].get(f), DEFAULTS.get(f))
                e = diff_paths(f, p, q)
                if e:
                    bad.append((asp, "%s impl, %s" % (t, e)))
            if "impls" in aspects:
                extra = set(x["items"]) - {"source", "provide", "fmt", "from"}
                if extra:
                    bad.append(("impls", "unexpected members %s in impl of %s" % (sorted(extra), k)))
        for k in d:
            if k not in rr:
                t = d[k][0]["trait"].rsplit("::", 1)[-1]
                a = {"From": "from", "Display": "display"}.get(t)
                if a in aspects:
                    bad.append((a, "unexpected impl of %s" % k))
        if not bad:
            return []
        if best is None or len(bad) < len(best):
            best = bad
    return best if best is not None else [("impls", "no reference impl was found")]


class Result:
    def __init__(self):
        self.viol = []      # (witness, aspect, text)
        self.n = 0
        self.fns = 0
        self.paths = 0
        self.samples = []
        self.failed_compile = 0


def line_map(ws, prefix_lines):
    out, line = [], prefix_lines + 1
    for n, w in ws:
        t = w.text(n)
        c = t.count("\n") + 1
        out.append((line, line + c - 1, n))
        line += c
    return out


def all_spans(sp):
    yield sp
    e = sp.get("expansion")
    while e:
        yield e["span"]
        e = e["span"].get("expansion")


def owner(diag, lm, fname):
    for sp in sorted(diag.get("spans", []), key=lambda s: not s["is_primary"]):
        for s in all_spans(sp):
            if not s["file_name"].endswith(fname):
                continue
            for a, b, n in lm:
                if a <= s["line_start"] <= b:
                    return n
    for c in diag.get("children", []):
        o = owner(c, lm, fname)
        if o is not None:
            return o
    return None


def run_batch(deps, name, ws, aspects, edition="2021", head=HEAD, sup=SUP, extra=(), part=False):
    """ws: list of (n, Witness). Returns a Result."""
    res = Result()
    live = list(ws)
    pre = head + sup
    for attempt in range(8):
        if not live:
            return res
        if build.HANG["found"]:
            res.n += len(live)
            return res
        text = pre + "\n".join(w.text(n) for n, w in live) + "\n"
        c = build.compile_witness(deps, name, text, edition=edition, extra=extra, timeout=build.PATIENCE[part])
        errs = [d for d in c.diags if d["level"].startswith("error") and not d["message"].startswith("aborting due to")]
        if c.ok:
            break
        lm = line_map(live, pre.count("\n"))
        bad = {}
        for d in errs:
            o = owner(d, lm, name + ".rs")
            if o is not None:
                bad.setdefault(o, d["message"] + " " + first_line(d))
        if not bad:
            if len(live) == 1:
                bad = {live[0][0]: (errs[0]["message"] if errs else build.verdict_of_death(c))}
            else:
                # An error without a usable location: split.
                h = len(live) // 2
                for half, ws2 in (("a", live[:h]), ("b", live[h:])):
                    r = run_batch(deps, name + half, ws2, aspects, edition, head, sup, extra, True)
                    merge(res, r)
                return res
        byn = dict(live)
        for n, m in bad.items():
            res.viol.append((byn[n], "compile", "this valid input does not compile: " + m))
            res.failed_compile += 1
        res.n += len(bad)
        live = [(n, w) for n, w in live if n not in bad]
    else:
        # Never settles: every round has recorded at least one input that does not compile.
        res.n += len(live)
        return res
    if c.facts is None:
        raise build.BuildError("no facts for witness crate %s: %s" % (name, c.raw[-800:]))
    per = collect(c.facts)
    stray = {}
    if "items" in aspects:
        for i in c.facts["derive_items"]:
            m = re.match(r"w(\d+)::d$", i["module"])
            if m and i["top"] and not i["anon"] and not i["kind"].startswith("Impl"):
                stray.setdefault(int(m.group(1)), []).append("%s %s" % (i["kind"], norm(i["path"])))
    for n, w in live:
        res.n += 1
        p = per.get(n, {})
        if "d" not in p:
            res.viol.append((w, "impls", "the derive generated nothing"))
            continue
        for im in p["d"].values():
            for i in im:
                for f in i["fns"].values():
                    res.fns += 1
                    res.paths += len(f["paths"] or ())
        if n in stray:
            res.viol.append((w, "items", "besides impls, the expansion defines %s" % stray[n]))
        for a, t in compare_one(p, aspects):
            res.viol.append((w, a, t))
    if live:
        res.samples.append(live[0][1])
    return res


def first_line(d):
    for s in d.get("spans", []):
        if s["is_primary"] and s.get("text"):
            return "at `%s`" % s["text"][0]["text"].strip()[:120]
    return ""


def merge(a, b):
    a.viol += b.viol
    a.n += b.n
    a.fns += b.fns
    a.paths += b.paths
    a.samples += b.samples
    a.failed_compile += b.failed_compile


def run(deps, name, witnesses, aspects, chunk=150, edition="2021", head=HEAD, sup=SUP, extra=(), jobs=8):
    ws = list(enumerate(witnesses))
    chunk = max(10, min(chunk, -(-len(ws) // (2 * jobs))))
    parts = [ws[i:i + chunk] for i in range(0, len(ws), chunk)]
    res = Result()
    with concurrent.futures.ThreadPoolExecutor(max_workers=jobs) as ex:
        for r in ex.map(lambda ip: run_batch(deps, "%s_%d" % (name, ip[0]), ip[1], aspects, edition, head, sup, extra), enumerate(parts)):
            merge(res, r)
    return res
