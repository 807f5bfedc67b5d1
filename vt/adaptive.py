"""Inputs whose names are those the derive itself uses: read off its expansion, so that a change of them is followed.

The macro's own identifiers (bindings, parameters, argument names, lifetimes) are collected from the expansion of a few
inputs by the current tree, given to the user's fields, arguments, parameters and items, and collected again: a macro
that steps aside for one name must step aside for the name it picks next."""
import os, re, subprocess
from . import build
from .model import *
from .compare import Witness
from .corpus_hygiene import P, F

IDENT = re.compile(r"(?<![\w'])(?:r#)?[A-Za-z_]\w*")
LIFE = re.compile(r"'([A-Za-z_]\w*)\b(?!')")
_CACHE = {}


def expand(text):
    """The expansion of a crate by the code under analysis, as text. Nothing is type-checked or run."""
    d = build.deps("std")
    wd = os.path.join(build.WORK, "wit")
    os.makedirs(wd, exist_ok=True)
    src = os.path.join(wd, "adaptive_%d.rs" % os.getpid())
    open(src, "w").write(text)
    cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "-Zunpretty=expanded", src, "--extern", "thiserror=" + d.libs["thiserror"]]
    for l in d.libdirs:
        cmd += ["-L", "dependency=" + l]
    r = subprocess.run(cmd, capture_output=True, text=True, env=build.env(), timeout=120)
    os.remove(src)
    return r.stdout


def names_in(shapes):
    """Identifiers and lifetimes in the expansion that the inputs do not have."""
    text = "\n".join("mod m%d { #[derive(::thiserror::Error)]\n%s }" % (i, s.decl(True)) for i, s in enumerate(shapes))
    ex = expand(text)
    strip = lambda t: re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: m.group(0) if "{" in m.group(0) else '""', t)
    ids = {unraw(x) for x in IDENT.findall(strip(ex))} - {unraw(x) for x in IDENT.findall(text)}
    lfs = set(LIFE.findall(strip(ex))) - set(LIFE.findall(text)) - {"static", "_"}
    return sorted(x for x in ids if x not in KEYWORDS and x != "_"), sorted(lfs)


XF = [("x", "i32"), ("p", "pb"), ("r", "rf")]
PIECES = [Ph("x"), Ph("x", "?"), Ph("p"), Ph("r", "p"), Ph("p", "?")]
TPIECES = [Ph(0), Ph(0, "?"), Ph(1), Ph(2, "p"), Ph(1, "?")]


def bases(fields=(), args=(), pieces=(), tuple_too=True):
    """Shapes with the same base fields and message, and what is given besides."""
    out = []
    for kind in ("struct", "enum"):
        fs = [F(n, k) for n, k in XF] + list(fields)
        m = Disp(PIECES + list(pieces), [Arg(e, n) for n, e in args])
        out.append(Shape(kind, "S", [Body("S" if kind == "struct" else "V", "named", fs, m)]))
        if tuple_too and not fields:
            m = Disp(TPIECES + list(pieces), [Arg(e, n) for n, e in args])
            out.append(Shape(kind, "S", [Body("S" if kind == "struct" else "V", "tuple", [F(None, k) for _, k in XF], m)]))
    return out


def role_bases(extra=()):
    """Shapes with sources and backtraces."""
    out = []
    for kind in ("struct", "enum"):
        nm = "S" if kind == "struct" else "V"
        x = list(extra)
        D = lambda: Disp([Lit("m"), Ph("a")])
        a = F("a", "i32")
        for fs in ([F("source", "e0"), F("bt", "bt")], [F("zs", "oe", "source"), F("bt", "obt", "backtrace")], [F("zs", "bx", "source", "backtrace")], [F("zs", "obx", "source", "backtrace")]):
            out.append(Shape(kind, "S", [Body(nm, "named", [a] + fs + x, D())]))
        if not x:
            out.append(Shape(kind, "S", [Body(nm, "named", [F("zs", "e0", "from"), F("bt", "bt")], Disp([Lit("m")]))]))
            out.append(Shape(kind, "S", [Body(nm, "named", [F("zs", "oe", "from"), F("bt", "obt", "backtrace")], Disp([Lit("m")]))]))
            out.append(Shape(kind, "S", [Body(nm, "tuple", [F(None, "e0", "from")], Transparent())]))
            out.append(Shape(kind, "S", [Body(nm, "named", [F("zs", "bx")], Transparent())]))
    return out


def discover():
    """(names, lifetimes) the macro uses, over several rounds of giving the user the ones found before."""
    key = build.repo_hash()
    if key in _CACHE:
        return _CACHE[key]
    names, rounds, lifes = [], [], set()
    for r in range(4):
        fresh_src = rounds[-1] if rounds else []
        fs = [F(n, "i32") for n in names if n not in ("source", "x", "p", "r", "a", "zs", "bt")]
        sh = bases() + role_bases() if not names else []
        if names:
            sh += bases(fields=fs) + bases(args=[(n, str(i)) for i, n in enumerate(names)], pieces=[Ph(n) for n in names]) + role_bases(fs)
        got, lf = names_in(sh)
        lifes |= set(lf)
        if names:
            # Those made out of the names of the fields shown: one in eight.
            more, _ = names_in(bases(fields=fs, pieces=[Ph(f.name) for f in fs]) + bases(fields=fs, pieces=[Ph(f.name, "?") for f in fs]))
            got += [n for n in more if n not in got and n not in names][::8]
        got = [n for n in got if n not in names]
        if not got:
            break
        rounds.append(got)
        names += got
    _CACHE[key] = (names, rounds, sorted(lifes))
    return _CACHE[key]


def fam_captured(rng, nsub):
    out = []

    def add(key, shapes):
        for i, s in enumerate(shapes):
            out.append(Witness("captured/%s/%d" % (key, i), s))
    names, rounds, lifes = discover()
    taken = {n for n, _ in XF} | {"a", "zs", "bt"}
    # (a field called Some would be the prelude's Some in every pattern, the user's own included)
    ok = lambda n: n not in taken and n not in NO_RAW and n not in ("Some", "None", "Ok", "Err")
    first = [n for n in names if n in rounds[0]] if rounds else []
    for n in names:
        if not ok(n):
            continue
        late = n not in first
        f = [F(n, "i32")] if n != "source" else [F(n, "e0")]
        add("field/" + n, bases(fields=f))
        add("field-shown/" + n, bases(fields=f, pieces=[Ph(n)]))
        add("field-debug/" + n, bases(fields=f, pieces=[Ph(n, "?")]))
        add("field-twice/" + n, bases(fields=f, pieces=[Ph(n, "?"), Ph(n), Ph(n, ">9")]))
        add("field-arg/" + n, bases(fields=f, args=[(None, "<<3>>")], pieces=[Ph(None)]))
        add("field-named-arg/" + n, bases(fields=f, args=[("k", "<<3>>")], pieces=[Ph("k"), Ph(n, "?")]))
        add("arg/" + n, bases(args=[(n, '"text"')], pieces=[Ph(n)]))
        add("arg-debug/" + n, bases(args=[(n, "<<0>>")], pieces=[Ph(n, "?"), Ph(n)]))
        add("arg-of-field/" + n, bases(fields=f, args=[(n, "<<3>>")], pieces=[Ph(n)]))
        if n != "source":
            add("role/" + n, role_bases([F(n, "i32")]))
            for t, at in (("e1", ("source",)), ("oe", ("from",)), ("bx", ("source", "backtrace")), ("bt", ()), ("obt", ("backtrace",))):
                if late and at != ("source",):
                    continue
                for kind in ("struct", "enum"):
                    fs = [F(n, t, *at)] + ([] if at == ("from",) else [F("x", "i32")])
                    if at in ((), ("backtrace",)):
                        fs = [F(n, t, *at), F("zs", "e0", "from")]
                    m = [Disp([Lit("m")])] + ([Transparent()] if at == ("from",) and False else [])
                    for mm in m:
                        add("as-%s-%s/%s" % (t, "+".join(at), n), [Shape(kind, "S", [Body("S" if kind == "struct" else "V", "named", fs, mm)])])
    # several of them at once
    pool = [n for n in names if ok(n) and n != "source"]
    sets = [pool] + [[n for n in r if n in pool] for r in rounds] + [[n for n in pool if n.startswith("_")]]
    for r in rounds[1:]:
        sets.append([n for n in pool if n in rounds[0] or n in r])
    for _ in range(nsub):
        if pool:
            sets.append(rng.sample(pool, rng.randint(2, min(8, len(pool)))))
    for i, ns in enumerate(sets):
        if not ns:
            continue
        fs = [F(n, "i32") for n in ns]
        add("fields/%d" % i, bases(fields=fs))
        add("fields-shown/%d" % i, bases(fields=fs, pieces=[Ph(n) for n in ns]))
        add("fields-mixed/%d" % i, bases(fields=fs, pieces=[Ph(n, ("?", None, "x")[j % 3]) for j, n in enumerate(ns)]))
        add("args/%d" % i, bases(args=[(n, "%d" % j) for j, n in enumerate(ns)], pieces=[Ph(n) for n in ns]))
        add("args-fields/%d" % i, bases(fields=fs, args=[(n, "<<%d>>" % (3 + (j + 1) % len(ns))) for j, n in enumerate(ns)], pieces=[Ph(n) for n in ns]))
        add("args-cross/%d" % i, bases(fields=fs, args=[("k%d" % j, "<<%d>>" % (3 + j)) for j, n in enumerate(ns)], pieces=[Ph("k%d" % j) for j, n in enumerate(ns)] + [Ph(n, "?") for n in ns]))
        add("roles/%d" % i, role_bases(fs))
    # parameters, lifetimes and items with these names
    for n in pool:
        if n in rounds[0]:
            g = Ty(n, gen=True, src="ref", traits="d?x")
            if not re.match(r"(core|std|thiserror|Backtrace|i32|Self)$", n):
                for kind in ("struct", "enum"):
                    add("param/" + n, [Shape(kind, "S", [Body("S" if kind == "struct" else "V", "named", [Fld("x", g), F("p", "pb"), Fld("zs", g, ("source",)), F("bt", "bt")], Disp([Ph("x"), Ph("p")]))], generics="<%s>" % n, params="<%s>" % n, inner="#![allow(non_camel_case_types)]")])
            for pre in ("pub mod %s {}", "macro_rules! %s { ($($t:tt)*) => { ::core::compile_error!{\"hijacked\"} } }", "pub trait %s { fn q(&self) {} }", "pub type %s = i32;"):
                if n in ("i32", "u32"):
                    continue
                key = "item %s/%s" % (pre.split("%s")[0].split()[-1].rstrip("!"), n)
                for s in bases()[:1] + bases()[2:3] + role_bases():
                    s.pre = pre % n
                    if not re.search(r"\b%s\b" % n, s.decl(False)):
                        add(key, [s])
    # arguments that mention items of the user's with these names
    for n in pool:
        if n not in rounds[0] or n.startswith("_") or n in ("i32", "core", "std", "thiserror"):
            continue
        for what, pre, expr in (("fn", "pub fn %s(x: i32) -> i32 { x }", "%s(<<0>>.abs())"), ("macro", "macro_rules! %s { ($x:expr) => { $x + 1 } }", "%s!(2)"), ("mod", "pub mod %s { pub fn f() -> i32 { 3 } pub const C: u8 = 1; }", "%s::f()"),
                                ("mod2", "pub mod %s { pub const C: u8 = 1; }", "self::%s::C"), ("type", "pub type %s = u8;", "%s::MAX"), ("struct", "#[derive(::core::fmt::Debug, ::core::clone::Clone)] pub struct %s(pub i32);", "%s(5).0"),
                                ("trait", "pub trait %s { fn q(&self) -> i32 { 1 } } impl %s for i32 {}", "<i32 as %s>::q(&7)"), ("assoc", "pub enum %s { A, B }", "%s::A as i32")):
            if what == "trait" and n in ("Display", "From", "Error", "Debug"):
                continue            # the impls looked for are told apart by that name
            for s in bases(args=[(None, expr.replace("%s", n))], pieces=[Ph(None)], tuple_too=False):
                s.pre = pre.replace("%s", n)
                s.inner = "#![allow(non_camel_case_types, non_snake_case)]"
                add("mention %s/%s" % (what, n), [s])
    for l in lifes:
        if l == "_request":
            continue            # provide() declares it: a parameter of that name is refused by the compiler
        t = Ty("&'%s str" % l, traits="d?")
        kw = dict(generics="<'%s>" % l, params="<'%s>" % l)
        add("lifetime/" + l, [Shape("struct", "S", [Body("S", "named", [Fld("a", t), F("zs", "e0", "source")], Disp([Ph("a")]))], **kw)])
    return out
