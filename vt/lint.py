"""Warnings the expansion draws from the compiler's and clippy's lints, beyond those the bare type draws."""
import collections, concurrent.futures, os, re, subprocess
from . import build, compare
from .model import *
from .compare import Witness
from .corpus import E, I32, STRING, BOX_SS, BT, OBT, ARC_BT, M, option
from .corpus_display import PATHBUF

CLIPPY = ["clippy::all", "clippy::pedantic"]


def rustc_lints():
    t = subprocess.run(["rustc", "+nightly", "-W", "help"], capture_output=True, text=True, env=build.env()).stdout
    out, on = [], False
    for line in t.splitlines():
        if line.startswith("Lint groups provided"):
            break
        m = re.match(r"\s+([a-z0-9-]+)\s+(allow|warn|deny)\s", line)
        if m:
            out.append(m.group(1).replace("-", "_"))
    if len(out) < 150:
        raise build.BuildError("could not list the compiler's lints")
    # Not about the code of one item, or renamed away.
    return [l for l in out if l not in ("unused_crate_dependencies", "unstable_features", "warnings", "must_not_suspend", "multiple_supertrait_upcastable", "test_unstable_lint", "fuzzy_provenance_casts", "lossy_provenance_casts",
                                        "implicit_provenance_casts", "non_exhaustive_omitted_patterns", "ffi_unwind_calls", "unqualified_local_imports", "linker_messages", "rust_2024_incompatible_pat", "unfulfilled_lint_expectations")]


class Lw:
    def __init__(self, key, derived, twin):
        self.key, self.derived_text, self.twin = key, derived, twin

    def text(self, n):
        return "/// w\npub mod w%d {\n/// d\npub mod d { use super::super::sup::*;\n%s\n}\n/// t\npub mod t { use super::super::sup::*;\n%s\n}\n}" % (n, self.derived_text, self.twin)


def of_shape(key, sh):
    return Lw(key, sh.derived(), sh.pre + "\n#[derive(::core::fmt::Debug)]\n" + sh.decl(False) + ("" if not sh.user_display else sh.hand_display()))


def subjects():
    """Attributes and names that lints look at, on each kind of input and in each role."""
    out = []
    D = Disp
    add = lambda k, sh: out.append(of_shape("lint/" + k, sh))
    e0, e1, oe, bt, obt, bx, pb = E(0), E(1), option(E(1)), BT, OBT, BOX_SS, PATHBUF
    roles = {
        "none": [],
        "show": ["a"], "source": [], "from": [],
    }
    fattrs = ["", "deprecated", "deprecated(note = \"n\")", "allow(dead_code)", "doc = \"d\"", "cfg(all())", "cfg_attr(all(), deprecated)", "doc(hidden)"]
    names = ["a", "_a", "__a", "aB", "A", "AB", "r#type", "r#fn", "request", "formatter", "f", "value", "e", "err", "self_", "_", "_0", "_1", "é"]
    for name in names:
        if name == "_":
            continue
        for fa in fattrs:
            x = [fa] if fa else []
            for kind in ("struct", "enum"):
                nm = "S" if kind == "struct" else "V"
                for rk, at, ty, extra, msg in (
                    ("shown", (), I32, [], D([Ph(unraw(name)), Ph(unraw(name), "?")])),
                    ("arg", (), I32, [], D([Ph(None)], [Arg("<<0>>")])),
                    ("hidden", (), I32, [], D([Lit("m")])),
                    ("path", (), pb, [], D([Ph(unraw(name))])),
                    ("source", ("source",), e0, [], D([Lit("m")])),
                    ("sourceshown", ("source",), e0, [("bt", bt, ())], D([Ph(unraw(name))])),
                    ("osource", ("source",), oe, [("bt", obt, ("backtrace",))], D([Lit("m")])),
                    ("from", ("from",), e0, [], D([Lit("m")])),
                    ("frombt", ("from",), e0, [("bt", bt, ())], D([Lit("m")])),
                    ("bt", (), bt, [], D([Lit("m")])),
                    ("btattr", ("backtrace",), obt, [("zz", e0, ("source",))], D([Lit("m")])),
                    ("srcbt", ("source", "backtrace"), e0, [], D([Lit("m")])),
                    ("transparent", (), e0, [], Transparent()),
                    ("transparentfrom", ("from",), e0, [], Transparent()),
                ):
                    fs = [Fld(name, ty, at, x)] + [Fld(n, t, a) for n, t, a in extra]
                    add("field/%s/%s/%s/%s" % (name, fa, kind, rk), Shape(kind, "S", [Body(nm, "named", fs, msg)]))
                    if name == "a":
                        fs = [Fld(None, ty, at, x)] + [Fld(None, t, a) for n, t, a in extra]
                        ms = D([Ph(0)]) if rk in ("shown", "path", "sourceshown") else msg
                        add("tuple/%s/%s/%s" % (fa, kind, rk), Shape(kind, "S", [Body(nm, "tuple", fs, ms)]))
    oattrs = ["deprecated", "allow(dead_code)", "must_use", "non_exhaustive", "doc = \"d\"", "doc(hidden)", "repr(C)", "deprecated(since = \"1\")"]
    onames = ["S", "snake_case", "SCREAM_CASE", "_S", "S_", "É"]
    vnames = ["V", "snake", "SCREAM_V", "_V", "SV", "VError", "Error", "None"]
    for on in onames:
        for oa in [""] + oattrs:
            for k, b in enumerate(bodies("S")):
                add("struct/%s/%s/%d" % (on, oa, k), Shape("struct", on, [b], attrs=[oa] if oa else []))
            for va in ["", "deprecated", "doc = \"d\"", "allow(deprecated)", "doc(hidden)"] + (["non_exhaustive"] if on == "S" else []):
                for vn in vnames:
                    if vn != "V" and (on != "S" or oa not in ("", "deprecated")):
                        continue
                    bs = bodies(vn)
                    for k, b in enumerate(bs):
                        b.attrs = [va] if va else []
                        rest = [Body("Other", "unit", [], D([Lit("o")]), ["deprecated"])] if k % 2 else []
                        add("enum/%s/%s/%s/%s/%d" % (on, oa, va, vn, k), Shape("enum", on, [b] + rest, attrs=[oa] if oa and oa != "repr(C)" else []))
    for vis in ("", "pub ", "pub(crate) ", "pub(super) ", "pub(in super) "):
        for k, b in enumerate(bodies("S")):
            for fv in ("", "pub ", "pub(crate) "):
                for f in b.fields:
                    f.vis = fv
                add("vis/%s/%s/%d" % (vis, fv, k), Shape("struct", "S", [b], vis=vis))
    # Generics
    T = Ty("T", gen=True, src="ref", traits="d?x")
    for g, p, w in (("<T>", "<T>", ""), ("<T: ::core::fmt::Display>", "<T>", ""), ("<T>", "<T>", "where T: ::core::fmt::Debug"), ("<'a, T: 'a>", "<'a, T>", ""), ("<'a, T>", "<'a, T>", "where T: 'a"), ("<T, const N: usize>", "<T, N>", ""),
                    ("<T: ::core::fmt::Debug + ::core::fmt::Debug>", "<T>", ""), ("<T = i32>", "<T>", ""), ("<'a, 'b: 'a, T>", "<'a, 'b, T>", "")):
        ex = [Fld("r", Ty("&'a str", traits="d?"))] if "'a" in g else []
        ex += [Fld("q", Ty("&'b str", traits="d?"))] if "'b" in g else []
        ex += [Fld("n", Ty("[u8; N]", traits="?"))] if "N" in g else []
        for at in ((), ("source",), ("from",)):
            if at == ("from",) and ex:
                continue
            fs = [Fld("a", T, at)] + ex
            for m in (D([Ph("a")]), D([Lit("m")]), D([Ph("a", "?")])):
                add("gen/%s/%s/%s/%s" % (g, w, at, len(out)), Shape("struct", "S", [Body("S", "named", fs, m)], generics=g, params=p, where=w))
                add("gene/%s/%s/%s/%s" % (g, w, at, len(out)), Shape("enum", "S", [Body("V", "named", fs, m), Body("W", "unit", [], D([Lit("x")]))], generics=g, params=p, where=w))
    # Elided, single-use and static lifetimes; qualified types whose short name is in scope
    for t in ("&'a str", "Option<&'a E0>", "::std::borrow::Cow<'a, str>"):
        add("lt/" + t, Shape("struct", "S", [Body("S", "named", [Fld("a", Ty(t, traits="?"))], D([Ph("a", "?")]))], generics="<'a>", params="<'a>"))
    for t in ("::core::option::Option<E1>", "core::option::Option<E1>", "std::option::Option<E1>", "super::super::sup::E1", "Option<super::super::sup::E1>", "crate::sup::E1", "::std::string::String", "std::io::Error", "::std::boxed::Box<::std::io::Error>"):
        src = "ref" if not re.search("Option|String|Box<", t) else ("opt" if "Option" in t else None)
        for use in ("", "use core::option::Option; use std::io; use std::string::String; use std::boxed::Box;"):
            txt = lambda at, m: "%s\n#[derive(::thiserror::Error, Debug)]\n#[error(%s)]\npub struct S { %s pub a: %s }" % (use, m, at, t)
            twin = "%s\n#[derive(Debug)]\npub struct S { pub a: %s }" % (use, t)
            for at in ("", "#[source]", "#[from]"):
                if at and "String" in t:
                    continue
                for m in ('"m"', '"{a:?}"', '"{0:?}", .a'):
                    out.append(Lw("lint/qual/%s/%s/%s/%s" % (t, bool(use), at, m), txt(at, m), twin))
    # Deprecated types, allowed where they are named
    pre = """/// o
#[deprecated]
#[derive(Debug)]
pub struct Old;
#[allow(deprecated)]
mod old_impls {
impl ::core::fmt::Display for super::Old { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("old") } }
impl ::core::error::Error for super::Old {}
}
"""
    for ty in ("Old", "Option<Old>", "::std::boxed::Box<Old>", "&'static Old"):
        for named in (True, False):
            for at in ("", "#[source]", "#[from]", "#[source] #[backtrace]", "#[from] #[backtrace]"):
                for m in ('"m"', '"{0:?}"', '"{:?}", .0', '"{0}"', "transparent"):
                    if m == "transparent" and ("source" in at or ty[0] not in "O:" or "Option" in ty or "backtrace" in at) or m == '"{0}"' and "Option" in ty:
                        continue
                    m2 = m.replace(".0", ".a").replace("{0", "{a") if named else m
                    fs = lambda at, vis: ("{ #[allow(deprecated)] %s %s a: %s }" if named else "(#[allow(deprecated)] %s %s %s)") % (at, vis, ty)
                    end = "" if named else ";"
                    for oa in ("", "#[allow(deprecated)]"):
                        out.append(Lw("lint/old/s/%s/%s/%s/%s/%s" % (ty, named, at, m, oa), pre + "#[derive(::thiserror::Error, Debug)]\n%s #[error(%s)]\npub struct S%s%s" % (oa, m2, fs(at, "pub"), end), pre + "#[derive(Debug)] %s\npub struct S%s%s" % (oa, fs("", "pub"), end)))
                        out.append(Lw("lint/old/e/%s/%s/%s/%s/%s" % (ty, named, at, m, oa), pre + "#[derive(::thiserror::Error, Debug)]\n%s pub enum S { #[error(%s)] V%s }" % (oa, m2, fs(at, "")), pre + "#[derive(Debug)]\n%s pub enum S { V%s }" % (oa, fs("", ""))))
    # Messages
    for m, fs in (('"{0}"', "(pub i32)"), ('"{0:?}"', "(pub String)"), ('"{}", .0.len()', "(pub String)"), ('"{x}", x = .0', "(pub i32)"), ('"{x} {x:?}", x = .0', "(pub i32)"), ('"a{{}}"', ";"), ('"{a}{a:?}{a:x}"', "{ pub a: i32 }"),
                  ('"{a}", a = .a + 1', "{ pub a: i32 }"), ('"{}", format!("{}", .a)', "{ pub a: i32 }"), ('"{}", (.a)', "{ pub a: i32 }"), ('"{}", if *.a { 1 } else { 2 }', "{ pub a: bool }"), ('"{:p}", .a', "{ pub a: &'static i32 }"), ('"{a:p} {a}"', "{ pub a: &'static i32 }"),
                  ('fmt = show', "(pub i32, pub String)"), ('fmt = show', "{ pub a: i32, pub b: String }"), ('fmt = "show"', None)):
        if fs is None:
            continue
        end = "" if fs.startswith("{") else ";" if fs != ";" else ""
        helper = ""
        if "fmt =" in m:
            args = "_a: &i32, _b: &str, f: &mut ::core::fmt::Formatter<'_>"
            helper = "/// s\npub fn show(_a: &i32, _b: &String, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(\"x\") }\n"
        if not helper:
            out.append(Lw("lint/msg/%s/%s" % (m, fs), "%s#[derive(::thiserror::Error, Debug)]\n#[error(%s)]\npub struct S%s%s" % (helper, m, fs, end), "%s#[derive(Debug)]\npub struct S%s%s" % (helper, fs, end)))
        vfs = fs.replace("pub ", "").rstrip(";")
        out.append(Lw("lint/vmsg/%s/%s" % (m, fs), "%s#[derive(::thiserror::Error, Debug)]\npub enum S { #[error(%s)] V%s }" % (helper, m, vfs), "%s#[derive(Debug)]\npub enum S { V%s }" % (helper, vfs)))
    seen, u = set(), []
    for w in out:
        if w.key not in seen:
            seen.add(w.key)
            u.append(w)
    return u


def bodies(name):
    D = Disp
    e0, oe = E(0), option(E(1))
    return [
        Body(name, "unit", [], D([Lit("m")])),
        Body(name, "tuple", [Fld(None, I32), Fld(None, PATHBUF)], D([Ph(0), Ph(1)])),
        Body(name, "named", [Fld("a", I32), Fld("source", e0)], D([Ph("a")])),
        Body(name, "tuple", [Fld(None, e0, ("from",))], D([Lit("m")])),
        Body(name, "named", [Fld("cause", oe, ("source",)), Fld("bt", OBT, ("backtrace",))], D([Lit("m")])),
        Body(name, "tuple", [Fld(None, e0, ("from",)), Fld(None, BT)], D([Ph(0)])),
        Body(name, "tuple", [Fld(None, e0)], Transparent()),
    ]


def run(d, name, ws, clippy=False, chunk=120, jobs=8, edition="2021"):
    """A Result whose violations are warnings drawn by the expansion only."""
    res = compare.Result()
    lints = rustc_lints()
    head = "#![feature(error_generic_member_access)]\n#![allow(unknown_lints, internal_features)]\n//! c\n"
    tool = None
    extra = []
    if clippy:
        sysroot = build.sysroot()
        tool = os.path.join(sysroot, "bin", "clippy-driver")
        if not os.path.exists(tool):
            raise build.BuildError("no clippy")
        for c in CLIPPY:
            extra += ["-W", c]
    else:
        for l in lints:
            extra += ["-W", l]
        extra += ["-F", "unsafe_code"]
    sup = compare.SUP.replace("#![allow(dead_code, unused)]", "#![allow(warnings, clippy::all, clippy::pedantic, clippy::restriction, clippy::nursery)]")

    def one(nm, ws, part=False):
        r = compare.Result()
        live = list(ws)
        for attempt in range(6):
            if build.HANG["found"] or not live:
                r.n += len(live)
                return r
            text = head + sup + "\n".join(w.text(n) for n, w in live) + "\n"
            c = build.compile_witness(d, nm, text, facts=False, extra=extra, tool=tool, edition=edition, timeout=build.PATIENCE[part])
            lm = compare.line_map(live, (head + sup).count("\n"))
            if c.ok:
                break
            bad = {}
            for x in c.diags:
                if x["level"].startswith("error") and not x["message"].startswith("aborting"):
                    o = compare.owner(x, lm, nm + ".rs")
                    if o is not None:
                        bad.setdefault(o, x["message"])
            if not bad:
                if len(live) > 1:
                    h = len(live) // 2
                    for s, sub in (("a", live[:h]), ("b", live[h:])):
                        compare.merge(r, one(nm + s, sub, True))
                    return r
                bad = {live[0][0]: build.verdict_of_death(c) if build.died(c) else " ".join(x["message"] for x in c.diags if x["level"].startswith("error"))}
            byn = dict(live)
            for n, m in bad.items():
                r.n += 1
                r.viol.append((byn[n], "compile", "this valid input does not compile: " + m))
            live = [(n, w) for n, w in live if n not in bad]
        # Which side of which witness each warning belongs to.
        side = {}
        line = (head + sup).count("\n") + 1
        for n, w in live:
            cnt = w.text(n).count("\n") + 1
            dl = w.derived_text.count("\n") + 1
            side[n] = line + 3 + dl      # the last line of the derived side
            line += cnt
        got = collections.defaultdict(lambda: (collections.Counter(), collections.Counter(), {}))
        for x in c.diags:
            if x["level"] != "warning" or not x.get("code"):
                continue
            r.paths += 1
            o = compare.owner(x, lm, nm + ".rs")
            if o is None:
                continue
            ln = None
            for sp in sorted(x["spans"], key=lambda s: not s["is_primary"]):
                for s in compare.all_spans(sp):
                    if s["file_name"].endswith(nm + ".rs"):
                        ln = s["line_start"]
                if ln:
                    break
            der = ln is not None and ln <= side[o]
            code = x["code"]["code"]
            got[o][0 if der else 1][code] += 1
            if der:
                got[o][2].setdefault(code, x["message"] + " " + compare.first_line(x))
        for n, w in live:
            r.n += 1
            r.fns += len(lints)
            a, b, msg = got[n]
            for code in a:
                if a[code] > b[code] and code not in ALLOWED:
                    r.viol.append((w, "lint", "the expansion draws %d warning(s) of the lint %s that the type itself does not: %s" % (a[code] - b[code], code, msg[code])))
        if ws:
            r.samples.append(ws[0][1])
        return r
    ws = list(enumerate(ws))
    chunk = max(20, min(chunk, -(-len(ws) // (2 * jobs))))
    parts = [("%s_%d" % (name, i // chunk), ws[i:i + chunk]) for i in range(0, len(ws), chunk)]
    with concurrent.futures.ThreadPoolExecutor(max_workers=jobs) as ex:
        for r in ex.map(lambda p: one(*p), parts):
            compare.merge(res, r)
    return res


# Drawn by the names of the user's own fields, once per crate.
ALLOWED = {"non_ascii_idents"}
