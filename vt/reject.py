"""Inputs that must be rejected: enumerated rule violations, and what the rejection has to look like."""
import concurrent.futures, itertools, re
from . import build, compare
from .model import *
from .corpus import E, I32, BOX_SS, BT, OBT, ARC_BT, M, option, role_valid


class Bad:
    """text: items of one module, deriving Error for a type named S. macro: rejected by the macro itself (an error message
    of its own, not a panic and not a type error). fallback: S must still be usable as an Error elsewhere."""

    def __init__(self, key, text, macro=True, fallback=True, generics="", rule="", params=None):
        self.key, self.text, self.macro, self.fallback, self.generics, self.rule = key, text, macro, fallback, generics, rule
        self.params = params

    def module(self, n):
        t = "pub mod w%d { use super::sup::*;\n%s\n" % (n, self.text)
        if self.fallback:
            # Uses of the type as an error, in another item.
            g, p = self.generics, self.params if self.params is not None else self.generics
            t += "pub mod u { use super::*; fn need<T: ::core::error::Error + ::core::fmt::Display + ?Sized>(_: &T) {}\n"
            t += "fn use_it%s(s: &super::S%s) { need(s); let _: &dyn ::core::fmt::Display = s; let _: &dyn ::core::error::Error = s; } }\n" % (
                g, p) if "'a" not in g else "fn use_it%s(s: &super::S%s) { need(s); } }\n" % (g, p)
        return t + "}"


def structural_error(b, kind):
    """The documented rule the body breaks, or None."""
    fs = b.fields
    for a in ("from", "source", "backtrace"):
        for f in fs:
            if f.attrs.count(a) > 1:
                return "duplicate #[%s] on a field" % a
    for a in ("from", "source", "backtrace"):
        if sum(f.has(a) for f in fs) > 1:
            return "duplicate #[%s]" % a
    fr = b.from_field()
    sr = next((i for i, f in enumerate(fs) if f.has("source")), None)
    bt = next((i for i, f in enumerate(fs) if f.has("backtrace")), None)
    if isinstance(b.msg, Transparent):
        if len(fs) != 1:
            return "transparent requires exactly one field"
        if sr is not None:
            return "transparent with #[source]"
    if fr is not None and sr is not None and fr != sr:
        return "#[from] on a field other than the source"
    if fr is not None:
        # Besides the source only a backtrace may be initialised: the one marked, or one recognised by its type.
        if bt is not None:
            mx = 1 + (bt != fr)
        else:
            mx = 1 + any(f.ty.bt for f in fs)
        if len(fs) > mx:
            return "#[from] with other fields"
    return None


def fam_structural():
    out = []
    ats = [(), ("from",), ("source",), ("backtrace",), ("from", "source"), ("source", "backtrace"), ("from", "backtrace"), ("from", "from"), ("source", "source"), ("backtrace", "backtrace")]
    tys = [E(0), BT, I32]
    types = lambda k: {0: [E(0)], 1: [E(1), BT], 2: [E(2), I32, BT]}[k]

    def emit(key, fs, st, msg=None):
        for kind in ("struct", "variant"):
            b = Body("S" if kind == "struct" else "V", st, fs, msg if msg is not None else M())
            e = structural_error(b, kind)
            if e is None:
                continue
            sh = Shape("struct", "S", [b]) if kind == "struct" else Shape("enum", "S", [b, Body("U", "unit", [], M())])
            out.append(Bad("structural/%s/%s" % (kind, key), "#[derive(::thiserror::Error, Debug)]\n" + sh.decl(True), rule=e))

    def levels(key, fs, st):
        """The same body in a variant described by a function, by the whole enum, and by nothing."""
        e = structural_error(Body("V", st, fs, M()), "variant")
        et = structural_error(Body("V", st, fs, Transparent()), "variant")
        v = "V" + Body("V", st, fs, None).decl_fields(True, False)
        d = "#[derive(::thiserror::Error, Debug)]\n"
        if e is not None:
            args = "".join("_: &%s, " % f.ty.text for f in fs)
            ff = "pub fn ff(%s_f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::result::Result::Ok(()) }\n" % args
            out.append(Bad("structural/fmt/" + key, d + "pub enum S { #[error(\"u\")] U, #[error(fmt = ff)] %s }\n%s" % (v, ff), rule=e))
            out.append(Bad("structural/fmt-level/" + key, d + "#[error(fmt = ff)] pub enum S { %s }\n%s" % (v, ff), rule=e))
            out.append(Bad("structural/level/" + key, d + "#[error(\"x\")] pub enum S { U, %s }" % v, rule=e))
            out.append(Bad("structural/mixed/" + key, d + "#[error(\"x\")] pub enum S { #[error(\"u\")] U, %s }" % v, rule=e))
            hand = "\nimpl ::core::fmt::Display for S { fn fmt(&self, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::result::Result::Ok(()) } }"
            out.append(Bad("structural/bare/" + key, d + "pub enum S { U, %s }%s" % (v, hand), rule=e, fallback=False))
        if et is not None:
            out.append(Bad("structural/transparent-level/" + key, d + "#[error(transparent)] pub enum S { #[error(\"u\")] U, %s }" % v, rule=et))
            out.append(Bad("structural/transparent-level-first/" + key, d + "#[error(transparent)] pub enum S { %s, B(E0) }" % v, rule=et))
    for n in (0, 1, 2, 3):
        for at in itertools.product(ats if n < 3 else ats[:4], repeat=n):
            for ts in itertools.product(*[types(k) for k in range(n)]):
                for named in (True, False):
                    if n == 3 and not named and ts[2].text != "i32":
                        continue
                    fs = [Fld("f%d" % k if named else None, ts[k], at[k]) for k in range(n)]
                    st = ("named" if named else "tuple") if n else "unit"
                    key = "%s/%s" % ("named" if named else "tuple", ",".join("%s:%s" % ("+".join(f.attrs), f.ty.text) for f in fs))
                    emit(key, fs, st)
                    emit("transparent/" + key, fs, st, Transparent())
                    if n < 3:
                        levels(key, fs, st)
    return out


def fam_attributes():
    """Misplaced, malformed and conflicting attributes."""
    out = []
    D = "#[derive(::thiserror::Error, Debug)]\n"

    def add(key, text, **kw):
        out.append(Bad("attr/" + key, D + text, **kw))
    fmtfn = "pub fn ff(_: &i32, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::result::Result::Ok(()) }\n"
    fefn = "pub fn fe(_: &E0, _f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::result::Result::Ok(()) }\n"
    msgs = ['error("a")', 'error(transparent)', 'error(fmt = ff)']
    # at most one description per item
    for a, b in itertools.product(msgs, repeat=2):
        for form, txt in (("struct", "#[%s] #[%s] pub struct S(E0);"), ("variant", "pub enum S { #[%s] #[%s] A(E0), #[error(\"b\")] B }"), ("enum", "#[%s] #[%s] pub enum S { A(E0) }")):
            add("two/%s/%s,%s" % (form, a, b), txt % (a, b))
    for a, b, c in itertools.product(msgs, repeat=3):
        add("three/%s,%s,%s" % (a, b, c), "pub enum S { #[%s] #[%s] #[%s] A(E0) }" % (a, b, c))
    # fmt = path has no struct form
    for t in ("(i32)", " { x: i32 }", ""):
        add("fmt-struct/" + t, "#[error(fmt = ff)] pub struct S%s%s" % (t, "" if "{" in t else ";"))
    # descriptions on a field
    for m in msgs:
        for ats in ("", "#[source]", "#[from]"):
            add("on-field/%s%s" % (m, ats), "#[error(\"x\")] pub struct S { #[%s] %s a: E0 }" % (m, ats))
            add("on-field-tuple/%s%s" % (m, ats), "#[error(\"x\")] pub struct S(#[%s] %s E0);" % (m, ats))
            add("on-variant-field/%s%s" % (m, ats), "pub enum S { #[error(\"x\")] A { #[%s] %s a: E0 }, #[error(\"y\")] B }" % (m, ats))
            add("on-second-variant-field/%s%s" % (m, ats), "pub enum S { #[error(\"y\")] B, #[error(\"x\")] A(#[%s] %s E0) }" % (m, ats))
        # ... in every container, whatever describes it, and with every role the field may play
        for ats in ("", "#[source]", "#[from]", "#[backtrace]", "#[from] #[backtrace]", "#[allow(dead_code)]"):
            for o, at in (("before", "#[%s] %s" % (m, ats)), ("after", "%s #[%s]" % (ats, m))):
                for form, f in (("tuple", "(%s E0)" % at), ("named", " { %s a: E0 }" % at), ("source", " { %s source: E0 }" % at)):
                    key = "%s/%s/%s/%s" % (m, ats, o, form)
                    sc = "" if "{" in f else ";"
                    if ats != "#[source]":
                        add("on-field-of/transparent-struct/" + key, "#[error(transparent)] pub struct S%s%s" % (f, sc))
                        add("on-field-of/transparent-variant/" + key, "pub enum S { #[error(transparent)] A%s }" % f)
                        add("on-field-of/transparent-variant-last/" + key, "pub enum S { #[error(\"y\")] Y(i32), #[error(transparent)] A%s }" % f)
                        add("on-field-of/transparent-level/" + key, "#[error(transparent)] pub enum S { B(E1), A%s }" % f)
                    add("on-field-of/struct/" + key, "#[error(\"x\")] pub struct S%s%s" % (f, sc))
                    add("on-field-of/variant/" + key, "pub enum S { #[error(\"y\")] Y, #[error(\"x\")] A%s }" % f)
                    add("on-field-of/level/" + key, "#[error(\"x\")] pub enum S { Y, A%s }" % f)
                    add("on-field-of/fmt/" + key, "pub enum S { #[error(\"y\")] Y, #[error(fmt = fe)] A%s }\n%s" % (f, fefn))
                    add("on-field-of/fmt-level/" + key, "#[error(fmt = fe)] pub enum S { A%s }\n%s" % (f, fefn))
        add("on-field-nomsg/" + m, "pub enum S { A(#[%s] E0), B }" % m, fallback=False)
        add("on-second-field/" + m, "#[error(\"x\")] pub struct S { z: i32, #[%s] a: E0 }" % m)
    # roles on something that is not a field
    for r in ("from", "source", "backtrace"):
        add("role-struct/" + r, "#[%s] #[error(\"x\")] pub struct S { a: E0 }" % r)
        add("role-struct2/" + r, "#[error(\"x\")] #[%s] pub struct S;" % r)
        add("role-enum/" + r, "#[%s] pub enum S { #[error(\"x\")] A(E0) }" % r)
        add("role-variant/" + r, "pub enum S { #[%s] #[error(\"x\")] A(E0) }" % r)
        add("role-variant2/" + r, "pub enum S { #[error(\"x\")] A, #[error(\"x\")] #[%s] B { a: E0 } }" % r)
        add("role-variant-transparent/" + r, "pub enum S { #[error(transparent)] #[%s] A(E0) }" % r)
        add("role-struct-transparent/" + r, "#[error(transparent)] #[%s] pub struct S(E0);" % r)
    # ... in every kind of variant and of struct, at every position, with every kind of description, before and after it
    forms = ["", "()", " {}", "(E0)", " { a: E0 }", "(i32, E1)", " { a: i32, source: E0 }", "(#[from] E0)", "(Backtrace)"]
    for r in ("from", "source", "backtrace"):
        for f in forms:
            for m in ("error(\"x\")", "error(transparent)", "error(fmt = ff)"):
                if m == "error(transparent)" and f not in ("(E0)", " { a: E0 }", "(#[from] E0)"):
                    continue
                if "ff" in m and f != "":
                    continue
                fn = "pub fn ff(_f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::result::Result::Ok(()) }\n" if "ff" in m else ""
                for o, at in (("before", "#[%s] #[%s]" % (r, m)), ("after", "#[%s] #[%s]" % (m, r)), ("between", "#[%s] #[allow(dead_code)] #[%s]" % (m, r))):
                    if fn == "":
                        add("role-on/struct/%s/%s/%s/%s" % (r, f, m, o), "%s pub struct S%s%s" % (at, f, "" if "{" in f else ";"))
                    for pos, pre, post in (("only", "", ""), ("first", "", "#[error(\"y\")] Y"), ("last", "#[error(\"y\")] Y(i32),", ""), ("middle", "#[error(\"y\")] Y,", "#[error(\"z\")] Z { z: i32 }")):
                        add("role-on/variant/%s/%s/%s/%s/%s" % (r, f, m, o, pos), "pub enum S { %s %s A%s, %s }\n%s" % (pre, at, f, post, fn))
            # under a description of the whole enum
            for pos, pre, post in (("only", "", ""), ("last", "Y,", ""), ("middle", "Y,", "#[error(\"z\")] Z { z: i32 }")):
                add("role-on/level/%s/%s/%s" % (r, f, pos), "#[error(\"x\")] pub enum S { %s #[%s] A%s, %s }" % (pre, r, f, post))
            # without any: the user writes Display
            hand = "\nimpl ::core::fmt::Display for S { fn fmt(&self, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::result::Result::Ok(()) } }"
            add("role-on/bare/%s/%s" % (r, f), "pub enum S { Y, #[%s] A%s }%s" % (r, f, hand), fallback=False)
            add("role-on/bare-struct/%s/%s" % (r, f), "#[%s] pub struct S%s%s%s" % (r, f, "" if "{" in f else ";", hand), fallback=False)
        add("role-on/empty-enum/" + r, "#[%s] pub enum S {}" % r)
        add("role-on/empty-enum-msg/" + r, "#[error(\"x\")] #[%s] pub enum S {}" % r)
        for m in ("error(\"x\")", "error(transparent)"):
            add("role-on/enum-msg/%s/%s" % (r, m), "#[%s] #[%s] pub enum S { A(E0), B(E1) }" % (m, r))
    # conflicting descriptions, the same way
    for f in forms:
        for a, b in (("error(\"x\")", "error(\"x\")"), ("error(\"x\")", "error(transparent)"), ("error(transparent)", "error(\"x\")"), ("error(transparent)", "error(transparent)"), ("error(\"x\")", "error(fmt = ff)"), ("error(fmt = ff)", "error(transparent)"), ("error(fmt = ff)", "error(fmt = ff)")):
            for pos, pre, post in (("only", "", ""), ("first", "", "#[error(\"y\")] Y"), ("last", "#[error(\"y\")] Y(i32),", ""), ("middle", "#[error(\"y\")] Y,", "#[error(\"z\")] Z { z: i32 }")):
                add("two-on/variant/%s/%s,%s/%s" % (f, a, b, pos), "pub enum S { %s #[%s] #[%s] A%s, %s }" % (pre, a, b, f, post))
                if "fmt" not in a + b or True:
                    add("two-on/mixed/%s/%s,%s/%s" % (f, a, b, pos), "#[error(\"d\")] pub enum S { %s #[%s] #[%s] A%s, %s }" % (pre, a, b, f, post))
            add("two-on/struct/%s/%s,%s" % (f, a, b), "#[%s] #[%s] pub struct S%s%s" % (a, b, f, "" if "{" in f else ";"))
            add("two-on/enum/%s/%s,%s" % (f, a, b), "#[%s] #[%s] pub enum S { A%s }" % (a, b, f))
            add("two-on/enum2/%s/%s,%s" % (f, a, b), "#[%s] #[%s] pub enum S { #[error(\"y\")] Y, A%s }" % (a, b, f))
        add("two-on/empty-enum/" + f, "#[error(\"x\")] #[error(\"y\")] pub enum S {}")
    # repeated roles on one field
    for r in ("from", "source", "backtrace"):
        add("twice-struct/" + r, "#[error(\"x\")] pub struct S(#[%s] #[%s] E0);" % (r, r))
        add("twice-variant/" + r, "pub enum S { #[error(\"x\")] A { #[%s] #[%s] a: E0 } }" % (r, r))
    # arguments to argument-less attributes
    for r in ("source", "backtrace"):
        for a in ("(x)", "()", " = \"x\"", "{}", "[]"):
            add("args/%s%s" % (r, a), "#[error(\"x\")] pub struct S(#[%s%s] E0);" % (r, a))
            add("args-variant/%s%s" % (r, a), "pub enum S { #[error(\"x\")] A(#[%s%s] E0) }" % (r, a))
            add("args-type/%s%s" % (r, a), "#[error(\"x\")] #[%s%s] pub struct S(E0);" % (r, a))
    # malformed #[error]
    for i, m in enumerate(["error", "error()", "error = \"x\"", "error(5)", "error(x)", "error(b\"x\")", "error('c')", "error(transparent, \"x\")", "error(transparent = true)", "error(\"x\" = 1)",
                           "error(fmt)", "error(fmt = )", "error(fmt = 5)", "error(fmt = \"x\")", "error(fmt(x))", "error(fmt = ff, 1)", "error(fmt = ff())", "error(1.5)", "error(true)", "error(-1)", "error(::core::format_args!(\"x\"))",
                           "error(Transparent)", "error(format = ff)", "error(transparent transparent)", "error{}", "error[]", "error(concat!(\"a\"))", "error(\"a\" \"b\")", "error(,)", "error(\"x\",,)", "error(fmt = |x| x)"]):
        add("malformed-struct/%s" % m, "#[%s] pub struct S(i32);" % m, fallback=i not in (25, 24) or True)
        add("malformed-variant/%s" % m, "pub enum S { #[error(\"a\")] B, #[%s] A(i32) }" % m)
        add("malformed-enum/%s" % m, "#[%s] pub enum S { A(i32) }" % m)
    # partial messages in an enum
    for bodies in ("A, #[error(\"b\")] B", "#[error(\"b\")] B, A", "#[error(\"b\")] B, A(E0), #[error(\"c\")] C", "#[error(\"b\")] B, #[error(transparent)] C(E0), A", "#[error(fmt = ff)] B(i32), A",
                   "A { x: i32 }, #[error(\"x\")] B", "#[error(\"b\")] B, A {}", "#[error(\"b\")] B, A()", "#[error(\"b\")] B, A(#[from] E0)", "#[error(\"b\")] B, A { source: E0 }", "#[error(transparent)] T(E0), A, #[error(\"z\")] Z",
                   "A, C, D, #[error(\"b\")] B", "#[error(\"\")] B, A"):
        add("partial/" + bodies, "pub enum S { %s }\n" % bodies + (fmtfn if "ff" in bodies else ""))
    # transparent arity
    for t in ("", "()", "{}", "(E0, E1)", "{ a: E0, b: E1 }", "(E0, i32, i32)"):
        sc = "" if t.startswith("{") else ";"
        add("transparent-struct/" + t, "#[error(transparent)] pub struct S%s%s" % (t, sc))
        add("transparent-variant/" + t, "pub enum S { #[error(transparent)] A%s, #[error(\"b\")] B }" % t)
        add("transparent-level/" + t, "#[error(transparent)] pub enum S { A%s, #[error(\"b\")] B }" % t)
        add("transparent-level2/" + t, "#[error(transparent)] pub enum S { B(E0), A%s }" % t)
    for t in ("(#[source] E0)", "{ #[source] a: E0 }", "(#[from] #[source] E0)", "{ #[source] source: E0 }"):
        sc = "" if t.startswith("{") else ";"
        add("transparent-source-struct/" + t, "#[error(transparent)] pub struct S%s%s" % (t, sc))
        add("transparent-source-variant/" + t, "pub enum S { #[error(transparent)] A%s, #[error(\"b\")] B }" % t)
        add("transparent-source-level/" + t, "#[error(transparent)] pub enum S { A%s, #[error(\"b\")] B }" % t)
    # unions
    add("union", "#[error(\"x\")] pub union S { a: u8 }", fallback=False)
    out[-1].text = out[-1].text.replace(", Debug", "")
    # errors in a later variant
    for k in range(1, 5):
        add("later/%d" % k, "pub enum S { %s #[error(\"x\")] Bad(#[from] E9, i32) }" % " ".join("#[error(\"v\")] V%d(E%d)," % (i, i) for i in range(k)))
        add("earlier/%d" % k, "pub enum S { #[error(\"x\")] Bad(#[from] E9, i32), %s }" % " ".join("#[error(\"v\")] V%d(E%d)," % (i, i) for i in range(k)))
    # ambiguous positional arguments
    for a in ("1", ".0", ".0, x = 1", "x = 1, 2", "1, 2", "x = .0, .1"):
        add("ambiguous-struct/" + a, "#[error(\"{0} {}\", %s)] pub struct S(i32, i32);" % a)
        add("ambiguous-variant/" + a, "pub enum S { #[error(\"a {1:?} {}\", %s)] A(i32, i32) }" % a)
    # with generics and where-clauses
    for g, p, w in (("<T>", "<T>", ""), ("<T: ::core::fmt::Debug>", "<T>", ""), ("<T>", "<T>", "where T: ::core::fmt::Debug"), ("<T>", "<T>", "where T: Clone,"), ("<'a>", "<'a>", ""), ("<'a, T: 'a>", "<'a, T>", "where T: Clone"), ("<const N: usize>", "<N>", ""), ("<const N: usize>", "<N>", "where [u8; N]: Sized")):
        g2 = g if "T" not in g else ("<'a, T: 'a + ::core::fmt::Debug + Clone>" if "'a" in g else "<T: ::core::fmt::Debug + Clone>")
        fld = "::core::marker::PhantomData<&'a T>" if "'a" in g and "T" in g else "T" if "T" in g else "&'a i32" if "'a" in g else "[u8; N]"
        out.append(Bad("generic-struct/%s%s" % (g, w), D + "#[error(transparent)] pub struct S%s(%s, i32) %s;" % (g, fld, w), generics=g2, params=p, rule="fallback keeps generics"))
        out.append(Bad("generic-enum/%s%s" % (g, w), D + "pub enum S%s %s { #[error(\"a\")] A(%s), B }" % (g, w, fld), generics=g2, params=p, rule="fallback keeps generics"))
        out.append(Bad("generic-named/%s%s" % (g, w), D + "#[error(\"a\")] #[error(\"b\")] pub struct S%s %s { f: %s }" % (g, w, fld), generics=g2, params=p, rule="fallback keeps generics"))
    return out


LIFETIMED = ["&'a E0", "Ref<'a>", "G<&'a E0>", "Box<Ref<'a>>", "std::boxed::Box<Ref<'a>>", "G<G<Ref<'a>>>", "Two<'static, 'a>", "Two<'a, 'static>", "G<Ref<'a>>", "&'a (dyn std::error::Error + 'static)", "self::Ref<'a>"]


def fam_ambiguous():
    """In a tuple struct, `{0}` next to an unnamed argument, whatever expression that is."""
    from .corpus_display import EXPRS, EFIELDS, CONTEXTS
    out = []
    nest = "(i32, (i32, i32), [i32; 2])"
    for es, tys in ((EXPRS, [t.text for _, t in EFIELDS]), ([c.replace("X", "<<0>>") for c in CONTEXTS], ["i32", "i32"])):
        f = ", ".join(tys)
        for e in es:
            e = re.sub(r"<<(\d+)>>", r".\1", e)
            for k, fmt, args in (("one", "{0:?} {:?}", e), ("after", "{0:?} {n} {:?}", "n = 1, " + e), ("before", "{:?} {0:?} {n}", e + ", n = 1"), ("second", "{:?} {1:?} {:?}", "1, " + e), ("named", "{0:?} {n:?} {:?}", "n = %s, 1" % e), ("trailing", "{:?} {0}", e + ",")):
                m = '#[error("%s", %s)]' % (fmt, args)
                out.append(Bad("ambiguous/%s/struct/%s" % (k, e), "#[derive(::thiserror::Error, Debug)]\n%s pub struct S(%s);" % (m, f)))
                if k in ("one", "named"):
                    out.append(Bad("ambiguous/%s/variant/%s" % (k, e), "#[derive(::thiserror::Error, Debug)]\npub enum S { #[error(\"ok\")] O, %s A(%s) }" % (m, f)))
    # by numbers beyond the fields, which can only be arguments
    for nf, n in itertools.product((1, 2, 3), (0, 1, 2, 3, 4, 10, 4294967295, 4294967296)):
        for k, fmt, args in (("one", "{%d:?} {:?}", ".0"), ("enough", "{%d:?}", ".0, 1, 2, 3, 4"), ("plain", "{%d} {}", "1, 2, 3, 4, 5"), ("named", "{n} {%d} {}", "n = 1, 2, 3"), ("last", "{} {n} {%d:>4}", "1, 2, n = 3"), ("width", "{:1$} {%d}", "1, 2, 3, 4"), ("escaped", "{{0}} {%d:#?} {}", "1, 2")):
            m = '#[error("%s", %s)]' % (fmt % n, args)
            f = ", ".join(["i32"] * nf)
            key = "ambiguous/beyond/%d/%d/%s" % (nf, n, k)
            out.append(Bad(key + "/struct", "#[derive(::thiserror::Error, Debug)]\n%s pub struct S(%s);" % (m, f)))
            out.append(Bad(key + "/variant", "#[derive(::thiserror::Error, Debug)]\npub enum S { #[error(\"ok\")] O, %s A(%s) }" % (m, f)))
            out.append(Bad(key + "/level", "#[derive(::thiserror::Error, Debug)]\n%s pub enum S { A(%s) }" % (m, f)))
    return list({b.key: b for b in out}.values())


def fam_lifetimes():
    """The source of an error cannot borrow."""
    out = []
    D = "#[derive(::thiserror::Error, Debug)]\n"
    defs = """#[derive(Debug)] pub struct Ref<'a>(&'a i32); impl std::fmt::Display for Ref<'_> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } } impl std::error::Error for Ref<'_> {}
#[derive(Debug)] pub struct Two<'a, 'b>(&'a i32, &'b i32); impl std::fmt::Display for Two<'_, '_> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } } impl std::error::Error for Two<'_, '_> {}
"""
    for t in LIFETIMED:
        for at in ("#[source]", "#[from]", "#[source] #[from]"):
            for form, txt in (("tuple", "#[error(\"x\")] pub struct S<'a>(%s %s);"), ("named", "#[error(\"x\")] pub struct S<'a> { %s e: %s }"), ("variant", "pub enum S<'a> { #[error(\"y\")] U, #[error(\"x\")] V(%s %s) }")):
                out.append(Bad("lifetime/%s/%s/%s" % (form, at, t), defs + D + txt % (at, t), generics="<'a>", rule="non-static source"))
        # An Option of one as well
        out.append(Bad("lifetime/option/%s" % t, defs + D + "#[error(\"x\")] pub struct S<'a>(#[source] Option<%s>);" % t, generics="<'a>", rule="non-static source"))
        if t.startswith("&"):
            continue    # `as_dyn_error` may be called on what a reference refers to
        # A source by name is caught by the type checker.
        out.append(Bad("lifetime/by-name/%s" % t, defs + D + "#[error(\"x\")] pub struct S<'a> { source: %s }" % t, macro=False, fallback=False, rule="non-static source"))
        out.append(Bad("lifetime/transparent/%s" % t, defs + D + "#[error(\"x\")] pub struct S<'a> { source: Option<%s> }" % t, macro=False, fallback=False, rule="non-static source"))
    return out


def fam_types():
    """Roles given to fields whose type cannot play them must not compile."""
    out = []
    D = "#[derive(::thiserror::Error, Debug)]\n"
    no = ["i32", "String", "Vec<E0>", "Option<i32>", "Option<Option<E0>>", "()", "(E0, E1)", "[E0; 1]", "&'static str", "Box<i32>", "std::path::PathBuf", "std::fmt::Error2", "Result<E0, E1>", "fn() -> E0", "Optional2"]
    k = 0
    for t in no:
        if "2" in t:
            continue
        for form in ("#[error(\"x\")] pub struct S(#[source] %s);", "#[error(\"x\")] pub struct S { source: %s }", "pub enum S { #[error(\"x\")] A(#[source] %s) }", "pub enum S { #[error(\"x\")] A { source: %s }, #[error(\"b\")] B }",
                     "#[error(\"x\")] pub struct S(#[from] %s);", "pub enum S { #[error(\"x\")] A(#[from] %s) }"):
            out.append(Bad("not-error/%s/%s" % (t, form), D + form % t, macro=False, fallback=False, rule="source must be an error"))
        for form in ("#[error(transparent)] pub struct S(%s);", "pub enum S { #[error(transparent)] A(%s) }", "#[error(transparent)] pub enum S { A { x: %s } }"):
            if t == "std::fmt::Error":
                continue
            out.append(Bad("not-error-transparent/%s/%s" % (t, form), D + form % t, macro=False, fallback=False, rule="transparent requires an error"))
    for t in ("i32", "String", "Option<i32>", "Vec<Backtrace>", "()"):
        for form in ("#[error(\"x\")] pub struct S(#[backtrace] %s);", "#[error(\"x\")] pub struct S { #[backtrace] b: %s }", "pub enum S { #[error(\"x\")] A(#[backtrace] %s) }", "#[error(\"x\")] pub struct S(#[source] #[backtrace] %s);"):
            out.append(Bad("not-backtrace/%s/%s" % (t, form), D + form % t, macro=False, fallback=False, rule="backtrace must hold a Backtrace"))
    # the same whatever else the error holds
    notbt = ["String", "Option<String>", "Box<String>", "Option<i32>", "Option<Box<str>>", "Arc<i32>", "E0", "Option<E0>", "Vec<u8>", "&'static str", "bool", "(Backtrace, i32)", "Option<Option<Backtrace>>", "Result<Backtrace, E0>"]
    ctx = [("alone", []), ("plain", ["x: i32"]), ("by-name", ["source: E1"]), ("attr", ["#[source] e: E1"]), ("opt", ["#[source] e: Option<E1>"]), ("opt-name", ["source: Option<E1>"]), ("box", ["#[source] e: Box<dyn std::error::Error + Send + Sync>"]),
           ("from", ["#[from] e: E1"]), ("from-opt", ["#[from] e: Option<E1>"])]
    for t in notbt:
        for cn, others in ctx:
            for first in (True, False):
                if not others and not first:
                    continue
                fs = ["#[backtrace] b: " + t]
                fs = fs + others if first else others + fs
                named = "{ %s }" % ", ".join(fs)
                tup = "(%s)" % ", ".join(re.sub(r"\b\w+: ", "", f, 1) for f in fs)
                forms = [("struct-named", "#[error(\"x\")] pub struct S " + named), ("variant-named", "pub enum S { #[error(\"a\")] A, #[error(\"x\")] B " + named + " }")]
                if "name" not in cn:
                    forms += [("struct-tuple", "#[error(\"x\")] pub struct S" + tup + ";"), ("variant-tuple", "pub enum S { #[error(\"x\")] B" + tup + ", #[error(\"a\")] A }")]
                for fn, text in forms:
                    out.append(Bad("not-backtrace2/%s/%s/%s/%s" % (t, cn, first, fn), D + text, macro=False, fallback=False, rule="backtrace must hold a Backtrace"))
    # What a placeholder asks of its field is checked
    for t, spec in (("Vec<i32>", ""), ("Option<i32>", ""), ("String", ":x"), ("i32", ":p"), ("std::path::PathBuf", ":>5"), ("()", ""), ("NoFmt", ""), ("NoFmt", ":p"), ("f32", ":b"), ("String", ":e"), ("Vec<i32>", ":o"), ("Option<std::path::PathBuf>", "")):
        for form in ("#[error(\"{0%s}\")] pub struct S(%s);", "#[error(\"{f%s}\")] pub struct S { f: %s }", "pub enum S { #[error(\"{f%s}\")] A { f: %s }, #[error(\"b\")] B }"):
            out.append(Bad("not-fmt/%s/%s/%s" % (t, spec, form), "#[derive(Debug)] pub struct NoFmt;\n" + D + form % (spec, t), macro=False, fallback=False, rule="placeholder needs the trait"))
    for m in ('"{nope}"', '"{1}"', '"{}"', '"{nope:?}", nop = 1', '"{a.b}"', '"{a b}"', '"{"', '"}"', '"{a"', '"{{}"', '"{a:?"', '"{_}"', '"x", 1', '"{a}", .nope', '"{x}", x = .b', '"{:?}"', '"{self_}"', '"{a}{"', '"{99999999999}"', '"{r#a}"', '"{a:}}"', '"{x:?}", x', '"{a:y}"'):
        for form in ("#[error(%s)] pub struct S { a: i32 }", "pub enum S { #[error(%s)] A { a: i32 }, #[error(\"b\")] B }", "#[error(%s)] pub enum S { A { a: i32 } }"):
            out.append(Bad("bad-format/%s/%s" % (m, form), D + form % m, macro=False, fallback=False, rule="format string names what exists"))
    for m in ('"{1}"', '"{nope}"', '"{00000000000000000000001}"', '"{a}"', '"{-1}"', '"{x}", x = .1', '"{x}", x = .1.0', '"{}"', '"{0"', '"{18446744073709551616}"', '"{4294967296}"'):
        for form in ("#[error(%s)] pub struct S(i32);", "pub enum S { #[error(%s)] A(i32) }"):
            out.append(Bad("bad-format-tuple/%s/%s" % (m, form), D + form % m, macro=False, fallback=False, rule="format string names what exists"))
    # Missing Debug or Display
    out.append(Bad("no-debug", "#[derive(::thiserror::Error)]\n#[error(\"x\")] pub struct S;", macro=False, fallback=False, rule="Error requires Debug"))
    out.append(Bad("no-display", D + "pub struct S;", macro=False, fallback=False, rule="Error requires Display"))
    out.append(Bad("no-display-enum", D + "pub enum S { A }", macro=False, fallback=False, rule="Error requires Display"))
    # The same source type twice
    out.append(Bad("from-twice", D + "pub enum S { #[error(\"a\")] A(#[from] E0), #[error(\"b\")] B(#[from] E0) }", macro=False, fallback=False, rule="one variant per source type"))
    out.append(Bad("from-twice-option", D + "pub enum S { #[error(\"a\")] A(#[from] E0), #[error(\"b\")] B(#[from] Option<E0>) }", macro=False, fallback=False, rule="one variant per source type"))
    # Infinitely recursive Display is warned about
    return out


def classify(c, ws, lm, name):
    """Errors by witness number."""
    by = {}
    stray = []
    for d in c.diags:
        if not d["level"].startswith("error") or d["message"].startswith("aborting due to") or d["message"].startswith("could not compile"):
            continue
        o = compare.owner(d, lm, name + ".rs")
        if o is None:
            stray.append(d)
        else:
            by.setdefault(o, []).append(d)
    return by, stray


CANARY = "pub mod canary { #[derive(::thiserror::Error, Debug)] #[error(transparent)] pub struct Canary; }\n"


def run_bad(deps, name, bads, aspects, chunk=120, jobs=8, head=compare.HEAD, sup=compare.SUP, canary=False):
    """aspects: subset of {"reject", "nopanic", "fallback"}. Returns a compare.Result; violations carry the Bad.
    canary: make sure that the macro was reached at all, and set inputs aside with which it is not."""
    res = compare.Result()
    if canary:
        sup = sup + CANARY

    def one(nm, ws, part=False):
        r = compare.Result()
        if build.HANG["found"]:
            r.n = len(ws)
            return r
        pre = head + sup
        text = pre + "\n".join(w.module(n) for n, w in ws) + "\n"
        lm, line = [], pre.count("\n") + 1
        for n, w in ws:
            c = w.module(n).count("\n") + 1
            lm.append((line, line + c - 1, n))
            line += c
        c = build.compile_witness(deps, nm, text, facts=False, timeout=build.PATIENCE[part])
        if build.died(c):
            if len(ws) > 1:
                h = len(ws) // 2
                for s, sub in (("a", ws[:h]), ("b", ws[h:])):
                    compare.merge(r, one(nm + s, sub, True))
                return r
            r.n = 1
            r.viol.append((ws[0][1], "nopanic", build.verdict_of_death(c)))
            return r
        by, stray = classify(c, ws, lm, nm)
        lost = [d for d in stray if "panicked" in d["message"]]
        if lost:
            r.viol.append((ws[0][1], "nopanic", "the macro panics on an input of this batch: " + lost[0]["message"]))
        if canary and not any("transparent" in d["message"] for d in stray):
            # Something before the macros stopped the compiler, such as a token that is none.
            if len(ws) > 1:
                h = len(ws) // 2
                for s, sub in (("a", ws[:h]), ("b", ws[h:])):
                    compare.merge(r, one(nm + s, sub, part))
                return r
            r.n = 1
            r.failed_compile = 1
            return r
        alone = []
        for n, w in ws:
            r.n += 1
            errs = by.get(n, [])
            pan = [d for d in errs if "panicked" in d["message"] or "internal compiler error" in d["level"]]
            own = [d for d in errs if d.get("code") is None and d not in pan]
            coded = [d for d in errs if d.get("code") is not None]
            r.paths += len(errs)
            if pan:
                if "nopanic" in aspects:
                    r.viol.append((w, "nopanic", "the macro panics on this input: %s" % (pan[0]["message"] + " " + " ".join(ch["message"] for ch in pan[0].get("children", [])))))
                continue
            if "reject" in aspects:
                if not errs:
                    alone.append((n, w))
                elif w.macro and not own:
                    r.viol.append((w, "reject", "this input breaks a rule (%s) but the macro accepts it; only the type checker objects: %s" % (w.rule, errs[0]["message"])))
            if "fallback" in aspects and w.fallback and w.macro and own:
                if coded or len(own) != 1:
                    extra = (coded + own[1:])[0]
                    r.viol.append((w, "fallback", "besides the macro's own error, further errors follow: %s %s" % (extra["message"], compare.first_line(extra))))
        # Without an error of its own in the batch, an input may only have been shadowed by the other errors.
        for n, w in alone:
            t1 = pre + w.module(n) + "\n"
            c1 = build.compile_witness(deps, nm + "x", t1, facts=False)
            lm1 = [(pre.count("\n") + 1, t1.count("\n") + 1, n)]
            by1, _ = classify(c1, [(n, w)], lm1, nm + "x")
            errs = by1.get(n, [])
            if c1.ok or not errs:
                r.viol.append((w, "reject", "this input must be rejected (%s) but compiles" % w.rule))
            elif any("panicked" in d["message"] for d in errs):
                if "nopanic" in aspects:
                    r.viol.append((w, "nopanic", "the macro panics on this input"))
            elif w.macro and not any(d.get("code") is None for d in errs):
                r.viol.append((w, "reject", "this input breaks a rule (%s) but only the type checker objects: %s" % (w.rule, errs[0]["message"])))
        if ws:
            r.samples.append(ws[0][1])
        return r
    ws = list(enumerate(bads))
    parts = [("%s_%d" % (name, i // chunk), ws[i:i + chunk]) for i in range(0, len(ws), chunk)]
    with concurrent.futures.ThreadPoolExecutor(max_workers=jobs) as ex:
        for r in ex.map(lambda p: one(*p), parts):
            compare.merge(res, r)
    return res
