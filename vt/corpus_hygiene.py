"""Inputs in scopes that redefine whatever the generated code might lean on."""
import re
from .model import *
from .compare import Witness
from .corpus import E, I32, UNIT
from .corpus_cross import disp_ty

# Every type is spelled in full, so the surroundings cannot change what the fields are.
P = {
    "i32": Ty("i32", traits="d?x"),
    "e0": Ty("E0", src="ref", traits="d?"),
    "e1": Ty("super::super::sup::E1", src="ref", traits="d?"),
    "oe": None,
    "bx": Ty("::std::boxed::Box<dyn ::std::error::Error + ::core::marker::Send + ::core::marker::Sync>", src="deref", traits="d?p"),
    "pb": Ty("::std::path::PathBuf", disp="::std::path::Path::display({})", traits="P?"),
    "st": Ty("::std::string::String", traits="d?"),
    "bt": Ty("::std::backtrace::Backtrace", bt=True, btlike="own", traits="d?"),
    "ab": Ty("::std::sync::Arc<::std::backtrace::Backtrace>", btlike="deref", traits="?"),
    "rf": Ty("&'static i32", traits="d?xp"),
}
P["oe"] = option(P["e1"], "::core::option::Option<{}>")
P["obt"] = option(P["bt"], "::core::option::Option<{}>")
P["obx"] = option(P["bx"], "::core::option::Option<{}>")


def F(name, k, *at):
    return Fld(name, P[k], at)


def subjects(tag, generic=True):
    """Shapes that between them use every kind of generated code."""
    D = Disp
    out = []
    add = lambda n, sh: out.append(("%s" % n, sh))
    S = lambda st, fs, m, **k: Shape("struct", "S", [Body("S", st, fs, m)], **k)
    add("plain", lambda **k: S("unit", [], D([Lit("text")]), **k))
    add("show", lambda **k: S("named", [F("a", "i32"), F("p", "pb"), F("r", "rf")], D([Ph("a"), Ph("p"), Ph("a", "?"), Ph("r", "p"), Ph("r")]), **k))
    add("args", lambda **k: S("named", [F("a", "i32"), F("p", "pb")], D([Ph(None), Ph("p"), Ph("q", "?")], [Arg("<<0>>"), Arg("<<1>>", "q")]), **k))
    add("tuple", lambda **k: S("tuple", [F(None, "i32"), F(None, "pb"), F(None, "rf")], D([Ph(1), Ph(0, "x"), Ph(2, "p"), Ph("z")], [Arg("<<0>>", "z")]), **k))
    add("source", lambda **k: S("named", [F("source", "e0"), F("bt", "bt")], D([Ph("source")]), **k))
    add("optsource", lambda **k: S("named", [F("cause", "oe", "source"), F("bt", "obt", "backtrace")], D([Ph("cause", "?")]), **k))
    add("boxsource", lambda **k: S("tuple", [F(None, "bx", "source", "backtrace")], D([Ph(0)]), **k))
    add("optbox", lambda **k: S("tuple", [F(None, "obx", "source", "backtrace")], D([Ph(0, "?")]), **k))
    add("from", lambda **k: S("tuple", [F(None, "e0", "from")], D([Ph(0)]), **k))
    add("frombt", lambda **k: S("named", [F("e", "e0", "from"), F("bt", "bt")], D([Ph("e")]), **k))
    add("fromobt", lambda **k: S("named", [F("e", "oe", "from"), F("bt", "obt", "backtrace")], D([Ph("e", "?")]), **k))
    add("fromabt", lambda **k: S("tuple", [F(None, "ab", "backtrace"), F(None, "e0", "from")], D([Lit("m")]), **k))
    add("transparent", lambda **k: S("tuple", [F(None, "e0", "from")], Transparent(), **k))
    add("transparentbx", lambda **k: S("named", [F("inner", "bx")], Transparent(), **k))
    add("enum", lambda **k: Shape("enum", "S", [
        Body("A", "unit", [], D([Lit("a")])), Body("B", "tuple", [F(None, "e0", "from"), F(None, "bt")], D([Ph(0)])),
        Body("C", "named", [F("source", "obx"), F("x", "i32"), F("p", "pb")], D([Ph("x", "?"), Ph("p"), Ph("q")], [Arg("<<1>>", "q")])),
        Body("D", "tuple", [F(None, "bx", "from")], Transparent()), Body("E", "named", [F("cause", "oe", "source"), F("backtrace", "obt", "backtrace")], D([Lit("{e}")])),
        Body("F", "tuple", [F(None, "e1", "source", "backtrace"), F(None, "rf")], D([Ph(1, "p")]))], **k))
    add("empty", lambda **k: Shape("enum", "S", [], **k))
    if generic:
        T = Ty("T", gen=True, src="ref", traits="d?x")
        add("generic", lambda **k: Shape("enum", "S", [Body("A", "tuple", [Fld(None, T), Fld(None, T)], D([Ph(0), Ph(1, "?")])), Body("B", "tuple", [Fld(None, T, ("source",))], D([Lit("b")])), Body("C", "tuple", [Fld(None, T)], Transparent())],
                                         generics="<T>", params="<T>", **k))
    return out


PRE_TYPES = ["Option", "Some", "None", "Ok", "Err", "Result", "String", "Box", "Vec", "Error", "Display", "Debug", "Formatter", "From", "Into", "Backtrace", "Request", "Send", "Sync", "Sized", "Fn", "Drop",
             "Clone", "Copy", "Iterator", "ToString", "AsRef", "Deref", "AsDynError", "AsDisplay", "ThiserrorProvide", "Var", "Private", "Path", "Pointer", "LowerHex", "Default", "Arguments", "Write", "Sealed"]
PRE_MODS = ["core", "std", "alloc", "thiserror", "__private", "fmt", "error", "option", "convert", "result", "backtrace", "path", "ops", "r#macro", "r#mod"]
PRE_MACROS = ["write", "writeln", "format_args", "format", "panic", "unreachable", "stringify", "concat", "vec", "matches", "assert", "todo", "r#try", "quote", "include_str", "compile_error", "format_args_nl", "const_format_args"]
PRE_FNS = ["drop", "write", "fmt", "from", "id", "format", "Error_", "provide", "as_dyn_error", "source_fn", "capture", "request_fn", "__formatter_fn", "_fmt"]
# Methods every type gets from a trait in scope; inherent methods still win over them.
EXT_METHODS = [("write_str", "&self, _s: &str"), ("write_fmt", "&self, _a: ::core::fmt::Arguments<'_>"), ("as_ref", "&self"), ("provide_ref", "&self"), ("source", "&self"), ("provide", "&self"), ("fmt", "&self"),
               ("to_string", "&self"), ("borrow", "&self"), ("deref", "&self"), ("clone", "&self"), ("into", "self"), ("from", ""), ("capture", ""), ("description", "&self"), ("cause", "&self"),
               ("display", "&self"), ("map", "&self"), ("unwrap", "&self"), ("is_some", "&self"), ("default", "")]


def fam_scopes():
    out = []
    subs = subjects("s")

    def each(key, pre, inner="", only=None, ref_pre=None, **kw):
        for n, mk in subs:
            if only and n not in only:
                continue
            sh = mk(pre=pre, inner=inner, ref_pre=ref_pre, **kw)
            out.append(Witness("scope/%s/%s" % (key, n), sh))
    each("none", "")
    for t in PRE_TYPES:
        each("struct " + t, "pub struct %s { pub q: i32 }" % t)
        if t not in ("Sized", "Send", "Sync"):
            each("enum " + t, "pub enum %s { Some, None, Ok, Err, Error, Display }" % t)
        each("trait " + t, "pub trait %s { fn q(&self) {} }" % t)
        each("type " + t, "pub type %s = i32;" % t)
        each("const " + t, "pub const %s: i32 = 1;" % t)
        each("fn " + t, "pub fn %s() {}" % t)
    for t in PRE_MODS:
        each("mod " + t, "pub mod %s { pub mod fmt { pub struct Formatter; pub trait Display {} } pub mod option { pub enum Option { Some, None } } pub mod __private {} pub struct Error; }" % t)
        if not t.startswith("r#"):
            each("type " + t, "pub type %s = i32;" % t)
    for t in PRE_MACROS:
        each("macro " + t, "macro_rules! %s { ($($t:tt)*) => { ::core::compile_error!{\"hijacked\"} } }" % t)
    for t in PRE_FNS:
        each("fn " + t, "pub fn %s() {}" % t)
        each("static " + t, "pub static STATIC_%s: i32 = 0;" % t)
    for m, a in EXT_METHODS:
        each("ext " + m, "pub mod ext { pub trait Ext { fn %s(%s) -> i32 where Self: ::core::marker::Sized { 0 } } impl<X> Ext for X {} } pub use ext::Ext as _;" % (m, a))
        each("ext-ref " + m, "pub mod ext { pub trait Ext { fn %s(%s) -> i32 where Self: ::core::marker::Sized { 0 } } impl<'x, X: ?::core::marker::Sized> Ext for &'x X {} } pub use ext::Ext as _;" % (m, a))
        # an inherent method of the error itself
        if a:
            each("inherent " + m, "impl S { pub fn %s(%s) -> i32 { 0 } }" % (m, a), only={"plain", "show", "source", "optsource", "boxsource", "from", "frombt", "transparent", "enum", "tuple"})
            each("own-trait " + m, "pub trait Mine { fn %s(%s) -> i32; } impl Mine for S { fn %s(%s) -> i32 { 0 } }" % (m, a, m, a), only={"plain", "show", "source", "optsource", "boxsource", "frombt", "transparent", "enum"})
    each("assoc", "impl S { pub const A: i32 = 0; pub const SOURCE: i32 = 1; pub fn from() {} pub fn new() -> i32 { 1 } }", only={"plain", "show", "source", "frombt", "from", "transparent"})
    each("deref", "impl ::core::ops::Deref for S { type Target = i32; fn deref(&self) -> &i32 { &0 } }", only={"plain", "show", "source", "optsource", "boxsource", "frombt", "transparent", "enum"})
    each("deref-err", "impl ::core::ops::Deref for S { type Target = E9; fn deref(&self) -> &E9 { &E9 } }", only={"plain", "show", "source", "optsource", "boxsource", "frombt", "transparent", "enum"})
    each("no-prelude", "", inner="#![no_implicit_prelude]")
    each("no-prelude-shadow", "pub mod std {} pub mod core {} pub struct Option; pub struct Some; pub trait Display {}", inner="#![no_implicit_prelude]")
    every = " ".join("pub struct %s { pub q: i32 }" % t for t in PRE_TYPES if t not in ("Error",)) + " ".join("macro_rules! %s { ($($t:tt)*) => { ::core::compile_error!{\"hijacked\"} } }" % t for t in PRE_MACROS) + \
        " ".join("pub mod %s {}" % t for t in PRE_MODS)
    each("everything", every)
    each("everything no-prelude", every, inner="#![no_implicit_prelude]")
    # Methods of the fields' own types, named like the ones the generated code needs on others.
    meths = "pub fn source(&self) -> i32 { 0 } pub fn fmt(&self) -> i32 { 0 } pub fn provide(&self) -> i32 { 0 } pub fn as_ref(&self) -> i32 { 0 } pub fn to_string(&self) -> i32 { 0 } pub fn write_str(&self) -> i32 { 0 } pub fn borrow(&self) -> i32 { 0 } pub fn into(&self) -> i32 { 0 } pub fn from(&self) -> i32 { 0 } pub fn display(&self) -> i32 { 0 } pub fn description(&self) -> i32 { 0 } pub fn clone(&self) -> i32 { 0 }"
    pre = "pub mod zz { #[derive(::core::fmt::Debug)] pub struct Own; impl Own { %s } impl ::core::fmt::Display for Own { fn fmt(&self, _f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::result::Result::Ok(()) } } impl ::core::error::Error for Own {} } pub use zz::Own;" % meths
    own = Ty("Own", src="ref", traits="d?")
    oown = option(own, "::core::option::Option<{}>")
    for nm, at in (("source", ()), ("e", ("source",)), ("e", ("from",)), ("e", ("source", "backtrace")), ("e", ())):
        for t in (own, oown):
            for m in (Disp([Ph(nm, "?")]), Disp([Ph(nm)]) if t is own else Disp([Lit("x")]), Transparent()):
                if isinstance(m, Transparent) and ("source" in at or t is oown):
                    continue
                for kind in ("struct", "enum"):
                    b = Body("S" if kind == "struct" else "V", "named", [Fld(nm, t, at)], m)
                    out.append(Witness("own-methods/%s/%s/%s/%s/%s" % (kind, nm, "+".join(at), t.text, type(m).__name__), Shape(kind, "S", [b], pre=pre)))
    return out


def fam_field_names():
    """Names of fields, arguments, parameters and lifetimes that the generated code might use for its own."""
    out = []
    hostile = ["request", "source", "backtrace", "error", "e", "err", "f", "fmt", "formatter", "this", "other", "transparent", "value", "args", "result", "_request", "_f", "_0", "_1", "__self", "__0", "__source",
               "__backtrace", "__request", "self_", "_self", "binding", "field", "arg", "lhs", "rhs", "ty", "body", "display", "_fmt", "inner", "var", "pointer", "__display_x", "__field_x", "__pointer_x", "s", "b", "p", "x",
               "_source", "_backtrace", "_formatter", "__e", "__err", "__error", "__fmt", "__f", "__args", "__result", "__value", "r#dyn", "r#impl", "r#where", "core", "std", "thiserror", "option"]
    for h in hostile:
        oth = "second" if h == "other" else "other"
        t = P["e0"] if h == "source" else P["i32"]
        for mk in (lambda: Disp([Ph(unraw(h)), Ph(oth)]), lambda: Disp([Ph(None, "?"), Ph("k", "?"), Ph(unraw(h), "?")], [Arg("<<0>>"), Arg("(<<0>>, <<1>>)", "k")])):
            for kind in ("struct", "enum"):
                nm = "S" if kind == "struct" else "V"
                out.append(Witness("hostile/%s/%s/show" % (kind, h) + str(len(out)), Shape(kind, "S", [Body(nm, "named", [Fld(h, t), Fld(oth, P["i32"])], mk())])))
                for at, st in (((("source",), "e1")), ((("backtrace", "source"), "e1")), (("source",), "oe"), (("source",), "bx")):
                    if h == "source":
                        continue
                    fs = [Fld(h, t), Fld("zs", P[st], at), Fld(oth, P["i32"])]
                    out.append(Witness("hostile/%s/%s/%s/%s/" % (kind, h, "+".join(at), st) + str(len(out)), Shape(kind, "S", [Body(nm, "named", fs, mk2(mk()))])))
                if h != "source":
                    fs = [Fld(h, t), Fld("zs", P["e1"], ("source",)), Fld(oth, P["bt"])]
                    out.append(Witness("hostile/%s/%s/bt/" % (kind, h) + str(len(out)), Shape(kind, "S", [Body(nm, "named", fs, Disp([Ph(unraw(h))]))])))
                    out.append(Witness("hostile/%s/%s/obt/" % (kind, h) + str(len(out)), Shape(kind, "S", [Body(nm, "named", [Fld(h, t), Fld("bt", P["obt"], ("backtrace",))], Disp([Ph(unraw(h))]))])))
        for k, t in enumerate((P["e0"], P["oe"], P["bx"])):
            for kind in ("struct", "enum"):
                nm = "S" if kind == "struct" else "V"
                out.append(Witness("hostile/%s/%s/from/%d" % (kind, h, k), Shape(kind, "S", [Body(nm, "named", [Fld(h, t, ("from",)), Fld("bt" if h != "bt" else "bb", P["bt"])], Disp([Lit("m")]))])))
                out.append(Witness("hostile/%s/%s/bt-name/%d" % (kind, h, k), Shape(kind, "S", [Body(nm, "named", [Fld("zs", t, ("from",)), Fld(h, P["bt"])], Disp([Lit("m")]))])) if h != "source" else out[-1])
                out.append(Witness("hostile/%s/%s/obt-name/%d" % (kind, h, k), Shape(kind, "S", [Body(nm, "named", [Fld("zs", t, ("from",)), Fld(h, P["obt"], ("backtrace",))], Disp([Lit("m")]))])) if h != "source" else out[-1])
                if t is not P["oe"]:
                    out.append(Witness("hostile/%s/%s/tr/%d" % (kind, h, k), Shape(kind, "S", [Body(nm, "named", [Fld(h, t)], Transparent())])))
    # (a parameter called Backtrace would make its fields backtraces)
    for g in ["Error", "Display", "Option", "Some", "Formatter", "Request", "Result", "From", "Debug", "T", "F", "E", "Fmt", "__T", "Target", "Var", "AsDynError", "Sealed", "core", "thiserror"]:
        for hidden in (False, True):
            t = Ty(g, gen=True, src="ref", traits="d?x")
            kw = dict(generics="<%s>" % g, params="<%s>" % g)
            if g in ("core", "thiserror"):
                kw["inner"] = "#![allow(non_camel_case_types)]"
            out.append(Witness("hostile-param/%s/%s/show" % (g, hidden), Shape("struct", "S", [Body("S", "named", [Fld("a", t), Fld("p", P["pb"])], Disp([Ph("a"), Ph("p")]) if not hidden else Disp([Ph("p")]))], **kw)))
            out.append(Witness("hostile-param/%s/%s/source" % (g, hidden), Shape("enum", "S", [Body("A", "named", [Fld("source", t), Fld("bt", P["bt"] if g != "Backtrace" else P["obt"], ("backtrace",))], Disp([Ph("source")] if not hidden else [Lit("x")])), Body("B", "tuple", [Fld(None, P["e0"], ("from",))], Transparent())], **kw)))
    for l in ["a", "_request", "request", "workaround", "q", "_", "src", "de", "f", "fmt", "__self", "life0", "life_self", "r"]:
        if l == "_":
            continue
        t = Ty("&'%s str" % l, traits="d?")
        kw = dict(generics="<'%s>" % l, params="<'%s>" % l)
        ok = l != "_request"     # the generated `provide` declares this one itself
        fs = [Fld("a", t), Fld("zs", P["e0"], ("source",))] + ([Fld("bt", P["bt"])] if ok and l != "q" else [])
        out.append(Witness("hostile-lifetime/" + l, Shape("struct", "S", [Body("S", "named", fs, Disp([Ph("a")]))], **kw)))
        out.append(Witness("hostile-lifetime-enum/" + l, Shape("enum", "S", [Body("V", "named", [Fld("a", t), Fld("p", P["pb"])], Disp([Ph("a"), Ph("p")])), Body("W", "tuple", [Fld(None, P["bx"], ("from",))], Transparent())], **kw)))
    for n in ["source", "backtrace", "self_", "formatter", "_", "Error", "Option", "N"]:
        if n in ("_",):
            continue
        kw = dict(generics="<const %s: usize>" % n.upper(), params="<%s>" % n.upper())
        out.append(Witness("hostile-const/" + n, Shape("struct", "S", [Body("S", "named", [Fld("a", Ty("[u8; %s]" % n.upper(), traits="?")), Fld("source", P["e0"])], Disp([Ph("a", "?")]))], **kw)))
    seen, uniq = set(), []
    for w in out:
        if w.key not in seen:
            seen.add(w.key)
            uniq.append(w)
    return uniq


def mk2(d):
    """The same message; its second field is elsewhere, so arguments refer to the first only."""
    return Disp([p for p in d.pieces], [Arg(a.expr.replace("<<1>>", "<<2>>"), a.name) for a in d.args])
