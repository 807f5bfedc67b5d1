"""Shapes whose message is `#[error(fmt = function)]`."""
import itertools
from .model import *
from .compare import Witness
from .corpus import role_valid, E, I32, STRING, BOX_SS, BT, OBT, IO, option, UNIT, M
from .corpus_display import PATHBUF, REFI, STR, F64
from .corpus_generics import T, GT, U

MAX = 12
FM = "f: &mut ::core::fmt::Formatter<'_>"


def fn_text(name, n, vis="pub "):
    gs = ", ".join("A%d" % i for i in range(n))
    return "%sfn %s<%s>(%s%s) -> ::core::fmt::Result { f.write_str(\"%s\") }" % (vis, name, gs, "".join("_a%d: &A%d, " % (i, i) for i in range(n)), FM, name)


def pre(n, types, own):
    """Every way to name a function of n arguments, for fields of these types."""
    sig = "fn(%s&mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result" % "".join("&%s, " % t for t in types)
    out = ["pub mod h { use super::*;", fn_text("f", n), fn_text("r#fn", n), "}",
           "pub struct H; impl H { %s }" % fn_text("f", n),
           "pub trait HT { %s } impl HT for H {}" % fn_text("g", n, ""),
           "pub trait HO { const N: usize; %s } impl<Z> HO for Z { const N: usize = 3; }" % fn_text("on", n, ""),
           fn_text("show", n), fn_text("_0", n), fn_text("source_", n), fn_text("formatter", n), fn_text("fm", n)]
    if not any(re.search(r"\b[TU]\b|'a", t) for t in types):
        out.append("pub const KF: %s = h::f;" % sig)
    out.append(own)
    return "\n".join(out)


STYLES = {
    "abc": ["a", "b", "c", "d", "e", "g", "i", "j", "k", "l", "m", "n"],
    "raw": ["r#type", "r#fn", "r#match", "r#move", "r#gen", "r#async", "b", "c", "d", "e", "g", "i"],
    "own": ["show", "f", "fm", "formatter", "_0", "_1", "__formatter", "request", "h", "H", "S", "KF"],
    "dup": ["f0", "f1", "f2", "p0", "p1", "p2", "_2", "r", "s", "t", "u", "v"],
    "rev": ["z", "y", "x", "w", "v", "u", "t", "s", "r", "q", "p", "o"],
    "tuple": [None] * 12,
}
PATHS = ["h::f", "self::h::f", "h::r#fn", "H::f", "<H as HT>::g", "Self::show", "S::show", "Self::on", "<Self as HO>::on", "show", "formatter", "_0", "KF", "h::f::<{}>", "self::show", "::core::fmt::Display::fmt"]
KINDS = [I32, PATHBUF, REFI, STRING, STR, F64, Ty("(i32, u8)", traits="?"), Ty("[u8; 3]", traits="?"), Ty("fn(i32) -> i32", traits="?"), Ty("Option<Box<i32>>", traits="?"), Ty("()", traits="?"), Ty("Vec<String>", traits="?")]


def fam_functions():
    out = []
    for n, (sn, names), (pi, path), gen, place in itertools.product((0, 1, 2, 3, 5, 12), STYLES.items(), enumerate(PATHS), ("", "T", "TU", "life"), ("variant", "level", "own", "mixed")):
        if gen and (n not in (1, 3) or sn in ("rev", "dup")) or place != "variant" and n == 12:
            continue
        if path.startswith("::core") and (n != 1 or gen):
            continue
        tys = [KINDS[(i + pi) % len(KINDS)] for i in range(n)]
        if path.startswith("::core"):
            tys = [I32]
        if gen == "T":
            tys[n // 2] = T
        elif gen == "TU":
            tys[0] = GT
            if n > 1:
                tys[2] = U
        elif gen == "life":
            tys[0] = Ty("&'a str", traits="d?")
        if path == "KF" and gen or path == "S::show" and gen in ("T", "TU"):
            continue
        g = {"": "", "T": "<T>", "TU": "<T, U>", "life": "<'a>"}[gen]
        if gen == "TU" and n == 1:
            continue
        fs = [Fld(names[i], tys[i]) for i in range(n)]
        p = path.replace("{}", ", ".join(t.text for t in tys))
        m = FmtPath(p)
        style = "unit" if n == 0 else "tuple" if sn == "tuple" else "named"
        if n == 0 and sn not in ("abc", "tuple"):
            continue
        own = "impl%s S%s { %s }" % (g, g, fn_text("show", n)) if "show" in p else ""
        V = lambda nm, msg: Body(nm, style, fs, msg)
        a = Body("Z", "tuple", [Fld(None, I32)], Disp([Ph(0, "x")]))
        if place == "variant":
            sh = [V("V", m), a], None
        elif place == "level":
            sh = [V("V", None), V("W", None)], m
        elif place == "own":
            sh = [V("V", None), V("W", Disp([Lit("own")])), a, Body("E", "tuple", [Fld(None, E(0), ("from",))], Transparent()), V("X", None)], m
        else:
            sh = [Body("E", "tuple", [Fld(None, E(0), ("from",))], None), V("V", m), Body("F", "tuple", [Fld(None, BOX_SS)], None), V("W", m)], Transparent()
        out.append(Witness("fn/%s/%d/%s/%s/%s" % (sn, n, p.replace(" ", ""), gen, place), Shape("enum", "S", sh[0], msg=sh[1], generics=g, params=g, pre=pre(n, [t.text for t in tys], own))))
    # Fields with roles are passed like the others.
    roles = [[("source", E(0), ())], [("e", E(1), ("from",))], [("e", option(E(1)), ("source",))], [("source", BOX_SS, ()), ("n", I32, ())], [("n", I32, ()), ("source", E(0), ("from",)), ("backtrace", BT, ())],
             [("n", I32, ()), ("backtrace", BT, ())], [("b", OBT, ("backtrace",)), ("source", E(2), ("from",))], [("source", E(0), ("backtrace",)), ("p", PATHBUF, ())]]
    for (k, r), path, place, named in itertools.product(enumerate(roles), ("h::f", "Self::show", "show", "_0"), ("variant", "level", "mixed"), (True, False)):
        r = [(nm if named else None, t, at) for nm, t, at in r]
        fs = [Fld(*x) for x in r]
        b = Body("V", "named" if named else "tuple", fs, FmtPath(path) if place != "level" else None)
        if not role_valid(b):
            continue
        n = len(fs)
        own = "impl S { %s }" % fn_text("show", n) if "Self" in path else ""
        bs = [b, Body("U0", "unit", [], Disp([Lit("u")]))] if place != "mixed" else [Body("A", "tuple", [Fld(None, E(3))], None), b]
        out.append(Witness("fn-roles/%d/%s/%s/%s" % (k, path, place, named), Shape("enum", "S", bs, msg=FmtPath(path) if place == "level" else Transparent() if place == "mixed" else None, pre=pre(n, [t.text for _, t, _ in r], own))))
    # Functions that take what the fields coerce to.
    co = """pub mod h { use super::*;
 pub fn s(_a: &str, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("s") }
 pub fn sl(_a: &[i32], f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("sl") }
 pub fn dy(_a: &dyn ::core::fmt::Debug, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("dy") }
 pub fn pa(_a: &::std::path::Path, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("pa") }
 pub fn bx(_a: &i32, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("bx") }
 pub fn val<A: Copy + ::core::fmt::Debug>(_a: A, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("val") }
 pub fn er(_a: &(dyn ::core::error::Error + 'static), f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("er") }
 pub fn never<A>(_a: A, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("never") }
 pub const fn cf(_a: &i32, _f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { Ok(()) }
 pub fn life<'a, 'b>(_a: &'a i32, f: &'b mut ::core::fmt::Formatter<'a>) -> ::core::fmt::Result where 'a: 'b { f.write_str("never") }
}"""
    for fn, t in (("s", STRING), ("sl", Ty("Vec<i32>", traits="?")), ("sl", Ty("[i32; 4]", traits="?")), ("dy", I32), ("dy", PATHBUF), ("pa", PATHBUF), ("bx", Ty("Box<i32>", traits="d?")), ("val", I32), ("val", REFI), ("er", E(0)),
                  ("er", IO), ("never", STRING), ("cf", I32), ("s", Ty("Box<str>", traits="d?"))):
        for nm, level in itertools.product((None, "a", fn), (True, False)):
            b = Body("V", "tuple" if nm is None else "named", [Fld(nm, t)], None if level else FmtPath("h::" + fn))
            out.append(Witness("fn-coerce/%s/%s/%s/%s" % (fn, t.text, nm, level), Shape("enum", "S", [b, Body("U0", "unit", [], Disp([Lit("u")]))], msg=FmtPath("h::" + fn) if level else None, pre=co)))
    return out
