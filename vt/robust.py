"""Malformed and degenerate inputs: whatever they are, the macro answers with code or with an error of its own."""
import itertools, random
from .reject import Bad

D = "#[derive(::thiserror::Error, Debug)]\n"
RULE = "the macro answers every input"
NAMED = "pub struct S { pub a: i32, pub r#type: i32, pub _b: i32 }"
TUPLE = "pub struct S(pub i32, pub i32);"


def bad(key, text):
    return Bad("robust/" + key, text, macro=False, fallback=False, rule=RULE)


def lit(s):
    """A Rust string literal of the text."""
    return '"' + "".join({"\\": "\\\\", '"': '\\"', "\n": "\\n"}.get(c, c) for c in s) + '"'


def formats(rng, length, extra, alphabet="{}:a0?$.*<_\u00e9"):
    """Every format string over the alphabet up to the length (opened by a brace), and random longer ones."""
    out = []
    k = 0
    for n in range(0, length + 1):
        for t in itertools.product(alphabet, repeat=n):
            s = "{" + "".join(t)
            k += 1
            out.append(bad("format/" + s, D + "#[error(%s)] %s" % (lit(s), NAMED if k % 2 else TUPLE)))
    wide = "{}{}{}:::a0bz?$.*<>^+-#_ \u00e9\u4e2d\u0301\n\t\"\\'e,=1r#"
    pieces = ["{}", "{{", "}}", "{a}", "{0}", "{type}", "{r#type}", "{_b}", "{a:?}", "{:}", "{a:>0$}", "{0:a$}", "{:.*}", "{a:#x}", "{ a }", "{a :?}", "{a:p}", "{self}", "{:e}", "{99999999999999999999999}", "{01}", "{:0", "{", "}"]
    for j in range(extra):
        s = "".join(rng.choice(wide) if rng.random() < 0.5 else rng.choice(pieces) for _ in range(rng.randint(1, 12)))
        args = rng.choice(["", "", ", 1", ", a = 1", ", .a", ", .0", ", x = .a, 2", ",", ", 1, 2, b = 3", ", r#type = 5"])
        form = rng.choice(["#[error(%s)] " + NAMED, "#[error(%s)] " + TUPLE, "pub enum S { #[error(%s)] A { a: i32, r#type: i32 }, #[error(\"\")] B }", "#[error(%s)] pub enum S { A(i32), B { a: i32 } }", "#[error(%s)] pub struct S;", "#[error(%s)] pub enum S {}"])
        out.append(bad("format-random/%d/%s%s" % (j, s, args), D + form % (lit(s) + args)))
    return out


TOKENS = [",", "=", ".", "a", "0", ".0", ".a", "1.0", "1.", '"s"', "|", "{}", "()", "[]", "!", "r#a", "self", "_", "&", "?", "::", "<", ">", "-", "..", "match", "'x", "'x'", "#", "$"]


def arguments(rng, length, extra):
    """Every sequence of tokens after the message."""
    out = []
    k = 0

    def one(ts):
        nonlocal k
        k += 1
        m = ['"{a} {}"', '"{0} {}"', '"{}"'][k % 3]
        form = ["#[error(%s, %s)] " + NAMED, "#[error(%s, %s)] " + TUPLE, "pub enum S { #[error(%s, %s)] A(i32, i32) }"][k % 3]
        out.append(bad("args/" + " ".join(ts), D + form % (m, " ".join(ts))))
    toks = [t for t in TOKENS if t != "$"]
    for n in range(1, length + 1):
        for ts in itertools.product(toks, repeat=n):
            one(ts)
    for _ in range(extra):
        one([rng.choice(toks) for _ in range(rng.randint(3, 9))])
    return out


def attributes(rng, extra):
    """Every attribute the macro looks at, with every short sequence of tokens, everywhere."""
    out = []
    toks = ["", "()", "( )", "(())", "(,)", "(=)", "(\"x\")", "(transparent)", "(fmt)", "(fmt =)", "(fmt = f)", "(fmt = ::f)", "(fmt = f::<)", "(fmt = <T>::f)", "(fmt = f::<i32>)", "(fmt = crate)", "(fmt = self)", "(fmt = f, )", "(fmt = f; )", "= \"x\"", "= 1", "= x", "{}", "{\"x\"}", "[]", "[\"x\"]", "(transparent, )", "(\"x\", )",
            "(\"\")", "(r\"x\")", "(r#\"x\"#)", "(b\"x\")", "(c\"x\")", "(\"x\"suffix)", "('x')", "(1)", "(1u8)", "(concat!(\"a\"))", "(\"a\" + \"b\")", "(\"{}\" \"{}\")", "(\"x\" = 1)", "(#x)", "(#[x])", "(r#transparent)", "(r#fmt = f)", "(..)", "(-1)", "(self)", "(crate::x)", "(_)", "(<)", "(not(x))", "(\"x\", \"y\")", "(\"x\",, 1)", "(\"{}\", )", "(\"{}\", ,)"]
    for name in ("error", "from", "source", "backtrace", "r#error", "r#source", "::error", "error::x", "thiserror::error"):
        for t in toks:
            at = "#[%s%s]" % (name, t)
            for k, form in enumerate(("%s pub struct S(E0);", "%s pub struct S;", "%s pub enum S { A(E0), #[error(\"x\")] B }", "pub enum S { %s A(E0), #[error(\"x\")] B }", "#[error(\"x\")] pub struct S(%s E0);", "#[error(\"x\")] pub struct S { %s a: E0, b: i32 }",
                                      "pub enum S { #[error(transparent)] A(%s E0) }", "pub enum S { #[error(\"x\")] A { %s a: E0, %s b: E1 } }", "%s pub enum S {}", "%s %s pub struct S(E0);")):
                out.append(bad("attr/%d/%s" % (k, at), D + form.replace("%s", at)))
    ats = ["#[%s%s]" % (n, t) for n in ("error", "from", "source", "backtrace", "doc", "allow", "cfg_attr") for t in toks[:30] if n not in ("doc", "allow", "cfg_attr") or t == "(\"x\")"]
    for j in range(extra):
        s = lambda: " ".join(rng.choice(ats) for _ in range(rng.choice((0, 0, 1, 1, 2))))
        f = lambda: "%s %s" % (s(), rng.choice(["E0", "i32", "Option<E1>", "std::backtrace::Backtrace"]))
        if rng.random() < 0.4:
            t = "%s pub struct S(%s);" % (s(), ", ".join(f() for _ in range(rng.randint(0, 3))))
        else:
            t = "%s pub enum S { %s }" % (s(), ", ".join("%s V%d(%s)" % (s(), i, ", ".join(f() for _ in range(rng.randint(0, 3)))) for i in range(rng.randint(0, 3))))
        out.append(bad("attr-random/%d" % j, D + t))
    return out


TYPES = ["_", "!", "()", "(E0,)", "(E0)", "((E0))", "[E0]", "[E0; 1]", "[E0; { 1 + 1 }]", "[E0; N]", "&E0", "&'static E0", "&'a E0", "&'_ E0", "&mut E0", "*const E0", "*mut E0", "dyn Tr", "dyn Tr + Send", "impl Tr", "fn()", "fn(E0) -> E1", "for<'x> fn(&'x E0)",
         "extern \"C\" fn(E0, ...)", "unsafe fn()", "Option", "Option<>", "Option<E0,>", "Option<E0, E1>", "Option<'a>", "Option<'static, E0>", "Option<Item = E0>", "Option<{ 1 }>", "Option<1>", "Option::<E0>", "Option(E0)", "Option(E0) -> E1", "::Option<E0>", "x::Option<E0>", "Option<Option<E0>>", "Option<dyn Tr>",
         "Option<Backtrace>", "Option<&'static Backtrace>", "Backtrace", "Backtrace<E0>", "x::Backtrace", "Backtrace::X", "::std::backtrace::Backtrace", "Option<::std::backtrace::Backtrace>", "<E0 as Tr>::X", "<E0>::X", "<T as Tr>::X", "T::X", "T", "Self", "self::E0", "super::E0", "crate::E0", "mac!()", "mac![E0]", "mac!{}", "Box<dyn Tr + 'a>", "Box<dyn for<'x> Fn(&'x E0) -> &'x E1>",
         "dyn 'a + Tr", "dyn (Tr)", "dyn ?Sized", "Vec<Vec<Vec<Vec<T>>>>", "(T, [T; 2], &'static T)", "fn(T) -> T", "Foo<'a, T, 3, X = E0>", "Foo<-1>", "Foo<{ T::N }>", "Foo<\"x\">", "Foo<'c'>", "Foo<T: Tr>", "typeof(1)", "struct { a: i32 }", "union { a: i32 }", "&&E0", "& &'a mut E0", "Cow<'_, str>", "PathBuf", "Path", "&'static Path", "r#type", "r#Option<E0>", "E0::<>", "dyn* Tr", "impl for<'x> Tr", "unsafe<'x> fn()", "Option<_>", "Option<!>", "Option<(E0)>"]


def types():
    out = []
    for t in TYPES:
        for g in ("", "<T>", "<'a, T: ?Sized, const N: usize>"):
            for k, form in enumerate(("#[error(\"{0}\")] pub struct S%s(%s);", "#[error(\"x\")] pub struct S%s(#[source] %s);", "#[error(\"x\")] pub struct S%s(#[from] %s);", "#[error(transparent)] pub struct S%s(%s);", "#[error(transparent)] pub struct S%s(#[from] %s);",
                                      "#[error(\"{a:?}\")] pub struct S%s { a: %s }", "#[error(\"x\")] pub struct S%s { source: %s, backtrace: Backtrace }", "#[error(\"x\")] pub struct S%s { #[backtrace] b: %s, #[source] s: E0 }", "pub enum S%s { #[error(\"{}\", .0)] A(#[from] %s), #[error(transparent)] B(E0) }",
                                      "#[error(\"x\")] pub struct S%s { #[from] e: E0, b: %s }", "#[error(fmt = f)] pub enum S%s { A(%s) }")):
                out.append(bad("type/%s/%s/%d" % (t, g, k), D + form % (g, t)))
    return out


def items():
    """Unusual declarations."""
    out = []
    gens = ["<>", "<'a>", "<'a,>", "<T,>", "<'a: 'static>", "<'a: 'b, 'b>", "<T: >", "<T: ?Sized>", "<T: Tr + 'static>", "<T: for<'x> Tr<'x>>", "<T: Tr<X = i32>>", "<T: Tr<X: Tr>>", "<T = i32>", "<T: Tr = i32>", "<const N: usize>", "<const N: usize = 3>", "<const N: usize = { 1 + 2 }>", "<const N: i32 = -1>", "<#[cfg(all())] T>", "<#[x] 'a>", "<r#type>", "<T, T>", "<S>", "<Error>",
            "<Display>", "<Self_>", "<_T>", "<\u00e9>", "<A, B, C, D, E, F>", "<'r#a>", "<T: ~const Tr>", "<T: const Tr>", "<T: async Fn()>", "<T: ?Tr>", "<T: (Tr)>", "<T: Fn(i32) -> i32>", "<T: use<>>"]
    wheres = ["", "where", "where T: Tr", "where T: Tr,", "where for<'x> T: Tr<'x>", "where 'a: 'static", "where Self: Sized", "where [T; 1]: Tr, T: Clone", "where (): Sized", "where T:", "where <T as Tr>::X: Tr", "where for<'x> &'x T: Tr", "where !: Sized", "where T: ?Sized"]
    bodies = ["#[error(\"x\")] pub struct S%s %s;", "#[error(\"{0}\")] pub struct S%s(T) %s;", "#[error(\"{a}\")] pub struct S%s %s { #[from] a: T }", "#[error(transparent)] pub struct S%s(#[from] T) %s;", "pub enum S%s %s { #[error(\"{0:?}\")] A(T), #[error(\"x\")] B }", "pub enum S%s %s { A(T), #[error(\"x\")] B }", "#[error(\"x\")] pub union S%s %s { a: u8 }"]
    for g in gens:
        for w in wheres:
            for k, b in enumerate(bodies):
                if ";" in b:
                    b2 = b % (g, w)
                out.append(bad("generics/%s/%s/%d" % (g, w, k), D + b % (g, w)))
    misc = ["pub struct S {}", "pub struct S();", "pub enum S {}", "pub enum S { A = 1, B = 2 }", "#[error(\"x\")] pub enum S { A = 1, B(i32) = 2 }", "#[error(\"x\")] pub enum S { A {}, B(), C }", "#[error(\"x\")] pub enum S { pub A, crate B }", "#[error(\"x\")] pub(in crate) struct S;", "#[error(\"x\")] pub struct r#S;", "#[error(\"x\")] pub struct r#struct;",
            "#[error(\"x\")] pub struct S { pub a: i32 = 5 }", "#[error(\"x\")] pub struct S { pub a: i32 = 5, .. }", "#[error(\"x\")] pub struct S { unsafe a: i32 }", "#[error(\"x\")] pub struct S { pub _: i32 }", "#[error(\"x\")] pub struct S { a: i32, a: i32 }", "#[error(\"x\")] pub enum S { A, A }", "#[error(\"{a}\")] pub struct S { a: i32, a: i32 }",
            "#[error(\"{a}\")] pub struct S { r#a: i32 }", "#[error(\"{r#a}\")] pub struct S { a: i32 }", "#[error(\"{self}\")] pub struct S;", "#[error(\"{crate}\")] pub struct S;", "#[error(\"{Self}\")] pub struct S;", "#[error(\"{super}\")] pub struct S { a: i32 }", "#[error(\"{_}\")] pub struct S;", "#[error(\"{__display0}\")] pub struct S(i32);", "#[error(\"{0}{__display_0}\")] pub struct S(i32);",
            "#[error(\"{__formatter}\")] pub struct S { __formatter: i32 }", "#[error(\"{a.b}\")] pub struct S { a: i32 }", "#[error(\"{a[0]}\")] pub struct S { a: i32 }", "#[error(\"{a::b}\")] pub struct S { a: i32 }", "#[error(\"{a()}\")] pub struct S { a: i32 }", "#[error(\"{0.0}\")] pub struct S((i32, i32));", "#[error(\"{}\", .0.0)] pub struct S((i32, i32));", "#[error(\"{}\", .0.0.0)] pub struct S(((i32,), i32));",
            "#[error(\"{}\", .0.)] pub struct S((i32, i32));", "#[error(\"{}\", ..0)] pub struct S(i32);", "#[error(\"{}\", ...0)] pub struct S(i32);", "#[error(\"{}\", .0.0.)] pub struct S((i32, i32));", "#[error(\"{}\", .18446744073709551616)] pub struct S(i32);", "#[error(\"{}\", .4294967296)] pub struct S(i32);", "#[error(\"{}\", .0u8)] pub struct S(i32);", "#[error(\"{}\", .0x0)] pub struct S(i32);",
            "#[error(\"{}\", .0_0)] pub struct S(i32);", "#[error(\"{}\", .00)] pub struct S(i32);", "#[error(\"{}\", .1e5)] pub struct S(i32);", "#[error(\"{}\", .0.1e5)] pub struct S(i32);", "#[error(\"{}\", .r#type)] pub struct S { r#type: i32 }", "#[error(\"{}\", .type)] pub struct S { r#type: i32 }", "#[error(\"{}\", .await)] pub struct S { a: i32 }", "#[error(\"{}\", .a.await)] pub struct S { a: i32 }",
            "#[error(\"{}\", .self)] pub struct S { a: i32 }", "#[error(\"{}\", ._)] pub struct S { a: i32 }", "#[error(\"{}\", .\"a\")] pub struct S { a: i32 }", "#[error(\"{}\", .{a})] pub struct S { a: i32 }", "#[error(\"{}\", .(a))] pub struct S { a: i32 }", "#[error(\"{}\", .'a)] pub struct S { a: i32 }", "#[error(\"{}\", .#a)] pub struct S { a: i32 }", "#[error(\"{x}\", x = .)] pub struct S { a: i32 }",
            "#[error(\"{x}\", x = )] pub struct S { a: i32 }", "#[error(\"{x}\", = 1)] pub struct S { a: i32 }", "#[error(\"{x}\", x == 1)] pub struct S { a: i32 }", "#[error(\"{x}\", x => 1)] pub struct S { a: i32 }", "#[error(\"{x}\", x = 1, x = 2)] pub struct S { x: i32 }", "#[error(\"{x}\", r#x = 1)] pub struct S { x: i32 }", "#[error(\"{}\", x = 1)] pub struct S { x: i32 }",
            "#[error(\"x\")] pub struct S(#[from] #[source] #[backtrace] E0);", "pub enum S { #[error(fmt = f)] A, #[error(fmt = f)] B(i32), #[error(fmt = f)] C { r#type: i32 } }"]
    for m in misc:
        out.append(bad("misc/" + m, D + m))
    # Sizes
    for n in (1, 2, 10, 11, 64, 100, 101, 257):
        fs = ", ".join("i32" for _ in range(n))
        out.append(bad("size/tuple/%d" % n, D + "#[error(\"{%d}%s{0}\")] pub struct S(%s);" % (n - 1, "{0}" * n, fs)))
        out.append(bad("size/all/%d" % n, D + "#[error(\"%s\")] pub struct S(%s);" % ("".join("{%d}{%d:?}" % (i, i) for i in range(n)), fs)))
        out.append(bad("size/nofield/%d" % n, D + "#[error(\"{%d}\")] pub struct S(%s);" % (n, fs)))
        out.append(bad("size/braces/%d" % n, D + "#[error(\"%s\")] pub struct S(i32);" % ("{{" * n)))
        out.append(bad("size/open/%d" % n, D + "#[error(\"%s\")] pub struct S(i32);" % ("{" * n)))
        out.append(bad("size/close/%d" % n, D + "#[error(\"%s\")] pub struct S(i32);" % ("}" * n)))
        out.append(bad("size/ident/%d" % n, D + "#[error(\"{%s}\")] pub struct S { %s: i32 }" % ("a" * n, "a" * n)))
        out.append(bad("size/digits/%d" % n, D + "#[error(\"{%s}\")] pub struct S(i32);" % ("1" * n)))
        out.append(bad("size/zeros/%d" % n, D + "#[error(\"{%s}\")] pub struct S(i32);" % ("0" * n)))
        out.append(bad("size/widths/%d" % n, D + "#[error(\"{0:%s}\")] pub struct S(i32);" % ("1" * n)))
        out.append(bad("size/args/%d" % n, D + "#[error(\"%s\", %s)] pub struct S(i32);" % ("{}" * n, ", ".join([".0"] * n))))
        out.append(bad("size/toomany/%d" % n, D + "#[error(\"\", %s)] pub struct S(i32);" % ", ".join([".0"] * n)))
        out.append(bad("size/path/%d" % n, D + "#[error(\"{}\", %s)] pub struct S(i32);" % "".join([".0"] * n)))
        out.append(bad("size/long/%d" % n, D + "#[error(\"%s{0}\")] pub struct S(i32);" % ("\u00e9x" * n * 100)))
        out.append(bad("size/variants/%d" % n, D + "#[error(\"{0}\")] pub enum S { %s }" % ", ".join("V%d(%s)" % (i, "i32") for i in range(n))))
        m = min(n, 60)
        out.append(bad("size/nest/%d" % n, D + "#[error(\"{}\", %s.0%s)] pub struct S(i32);" % ("(" * m, ")" * m)))
        out.append(bad("size/nestty/%d" % n, D + "#[error(\"{0:?}\")] pub struct S<T>(%sT%s);" % ("Vec<" * m, ">" * m)))
        out.append(bad("size/nestopt/%d" % n, D + "#[error(\"x\")] pub struct S<T>(#[source] %sT%s);" % ("Option<" * m, ">" * m)))
        out.append(bad("size/from/%d" % n, D + "pub enum S { %s }" % ", ".join("#[error(\"x\")] V%d(#[from] E0)" % i for i in range(n))))
    return out
