"""Shapes about Display: placeholders, named arguments, shorthand expressions, attribute placement, bounds."""
import itertools, random
from .model import *
from .compare import Witness
from .corpus import both, E, I32, STRING, UNITY, SRC, BOX_SS, BT, IO, option, UNIT

ALL = "d?oxXbeE"
REFI = Ty("&'static i32", traits=ALL + "p")
BOXI = Ty("Box<i32>", traits="d?p")
STR = Ty("&'static str", traits="d?p")
U8 = Ty("u8", traits=ALL)
F64 = Ty("f64", traits="d?eE")
BOOL = Ty("bool")
USIZE = Ty("usize", traits=ALL)
PATHBUF = Ty("PathBuf", disp="{}.display()", traits="P?")
PATHREF = Ty("&'static Path", disp="{}.display()", traits="P?p")
PATHBOX = Ty("Box<Path>", disp="{}.display()", traits="P?p")
PATHRC = Ty("Arc<Path>", disp="{}.display()", traits="P?p")
PATHFQ = Ty("std::path::PathBuf", disp="{}.display()", traits="P?")
VEC = Ty("Vec<i32>", traits="?")
OPTI = Ty("Option<i32>", traits="?")
SH = Ty("Sh", traits="?")
TUP = Ty("Tup", traits="?")

SPECS = [None, "", "?", "x", "X", "o", "b", "e", "E", "p", "#?", "x?", "X?", "#x", "#010X", "08", "08.3", ">10", "<10",
         "^10", "*^10", "*^10?", "+", "-", "+.2e", "5e", "#b", "?<5", "x>5", "e^5", "o<3?", "p>8", "b<4b", "E>9E", "_>+#08x", "é>4", "}>4"[:0] or "0", "02x", "02?",
         ".0", ".5?", "5", "#", "#p", "x<4", ":>4", ":<4x", " >4", " <3?", "0>#6x", "\u3000^3"]


def spec_trait(s):
    return Ph("a", s).trait()


TR = {"Display": "d", "Debug": "?", "Octal": "o", "LowerHex": "x", "UpperHex": "X", "Binary": "b", "LowerExp": "e", "UpperExp": "E", "Pointer": "p"}


def ok_ty(t, s):
    """Whether formatting this type with this spec type-checks."""
    need = TR[spec_trait(s)]
    if need == "d" and "P" in t.traits:
        return s is None
    return need in t.traits


def both_d(key, fields, msg, tags=(), **kw):
    return both(key, fields, "tuple" if fields and fields[0].name is None else "named", msg, tags, **kw)


def fam_specs():
    """Every format spec on every type that supports it, named and by position, with every spacing."""
    out = []
    types = [I32, REFI, BOXI, STR, U8, F64, PATHBUF, PATHREF, PATHBOX, PATHRC, PATHFQ, VEC, STRING, Ty("Option<&'static str>", traits="?")]
    for t in types:
        for s in SPECS:
            if not ok_ty(t, s):
                continue
            if t not in (I32, REFI) and s is not None and s not in ("?", "#?", "x", "p", "e", "#x", ">10", "", "x?", "#p", "5e"):
                continue
            for nm in (None, "var", "r#type"):
                pads = ("",)
                if t in (I32, REFI, PATHBUF) and s in (None, "?", "x", "p", "08", "e", "", "#?"):
                    pads = ("", " ", "  ", "\n", "\t")
                for pad in pads:
                    if s is not None and pad and s and s[-1] not in "?xXobeEp0123456789":
                        continue
                    ref = 0 if nm is None else unraw(nm)
                    out += both_d("spec/%s/%s/%r%r" % (t.text, nm, s, pad), [Fld(nm, t), Fld(None if nm is None else "other", U8)],
                                  Disp([Lit("pre "), Ph(ref, s, pad=pad), Lit(" post")]))
    return out


def fam_specs_extra():
    """Widths and precisions taken from arguments, by name and by position."""
    out = []
    for nm in (None, "var"):
        f = 0 if nm is None else nm
        fl = [Fld(nm, F64), Fld(None if nm is None else "w", USIZE)]
        for s in ("w$", ".w$", "w$.p$", ">w$", "0w$.1$e" if False else "0w$.p$e", "w$?", "#w$.p$?"):
            args = [Arg("4 + 4", "w")]
            if "p$" in s:
                args.append(Arg("2", "p"))
            out += both_d("dynspec/%s/%s" % (nm, s), fl, Disp([Ph(f, s)], args))
            out += both_d("dynspec/%s/%s/expr" % (nm, s), fl, Disp([Lit("x"), Ph(f, s), Lit("y")], [Arg("*<<1>> + 1", "w")] + args[1:]))
    fl = [Fld("var", F64), Fld("n", USIZE)]
    for s in ("0$", ".0$", "0$.1$", "0$.1$?", "0$e"):
        args = [Arg("8usize")] + ([Arg("*<<1>>")] if "1$" in s else [])
        out += both_d("dynspec-pos/%s" % s, fl, Disp([Ph("var", s)], args))
    out += both_d("dynspec-star", fl, Disp([Ph(None, ".*"), Lit(" "), Ph("var", None)], [Arg("3usize"), Arg("<<0>>")]))
    out += both_d("dynspec-star2", fl, Disp([Ph("var", None), Ph(None, ".*e"), Lit(" "), Ph("n", "x")], [Arg("*<<1>>"), Arg("<<0>>")]))
    return out


def fam_repeats():
    """The same field several times with different traits, several fields, and adjacency."""
    out = []
    specs = [None, "?", "x", "p", "#?", ">4", "e", "b", "X"]
    for nm in (None, "v"):
        f = 0 if nm is None else "v"
        g = 1 if nm is None else "v2"
        fl = [Fld(nm, REFI), Fld(None if nm is None else "v2", REFI)]
        for a, b in itertools.product(specs, specs):
            out += both_d("repeat/%s/%s,%s" % (nm, a, b), fl, Disp([Ph(f, a), Ph(f, b)]))
            out += both_d("repeat2/%s/%s,%s" % (nm, a, b), fl, Disp([Ph(g, a), Lit("-"), Ph(f, b), Ph(g, None), Lit(" "), Ph(f, "?")]))
        for a, b, c in [(None, "?", None), ("?", None, "?"), ("p", None, "?"), (None, "p", "x"), ("x", "X", "x"), ("p", "p", "p"), ("?", "p", None), ("o", "b", None)]:
            out += both_d("repeat3/%s/%s,%s,%s" % (nm, a, b, c), fl, Disp([Ph(f, a), Ph(f, b), Ph(f, c)]))
            out += both_d("repeat3x/%s/%s,%s,%s" % (nm, a, b, c), fl, Disp([Ph(f, a), Ph(g, a), Ph(f, b), Ph(g, b), Ph(f, c)]))
    for nm in (None, "p"):
        f = 0 if nm is None else "p"
        fl = [Fld(nm, PATHBUF), Fld(None if nm is None else "q", PATHREF)]
        g = 1 if nm is None else "q"
        out += both_d("repeatpath/%s/1" % nm, fl, Disp([Ph(f, "?"), Ph(f, None), Ph(g, None), Ph(g, "?"), Ph(f, None)]))
        out += both_d("repeatpath/%s/2" % nm, fl, Disp([Ph(g, "p"), Ph(g, None), Ph(f, None)]))
    return out


LITS = ["", "{", "}", "{}", "{{", "}}", "{{}}", "{x}", "{0}", "}{", "a{b", "a}b", "{:?}", "{{{", "é", "日本語 {", "\n", "\t\"quoted\"\\", "%s", "{a}{b}",
        "\u200b", "\x01", "'", "#", "//", "/*", "r#\"", "{_}", "{a:?}", "trailing ", " leading", "$", "{{0}}", "\U0001f600{", "\\{", "\\u{41}"]


def fam_literals():
    """Text around placeholders: escapes, unicode, quotes; and messages that are only text."""
    out = []
    for i, l in enumerate(LITS):
        out += both_d("lit/%d/only" % i, [Fld("x", I32)], Disp([Lit(l)]))
        out += both_d("lit/%d/unit" % i, [], Disp([Lit(l)]))
        out += both_d("lit/%d/before" % i, [Fld("x", I32)], Disp([Lit(l), Ph("x", None)]))
        out += both_d("lit/%d/after" % i, [Fld(None, I32)], Disp([Ph(0, "?"), Lit(l)]))
        out += both_d("lit/%d/between" % i, [Fld("x", I32), Fld("y", PATHBUF)], Disp([Ph("x", None), Lit(l), Ph("y", None)]))
        out += both_d("lit/%d/arg" % i, [Fld("x", I32)], Disp([Lit(l), Ph(None, None), Lit(l)], [Arg("<<0>>")]))
    for i, j in itertools.product(range(1, 8), range(1, 8)):
        out += both_d("lit2/%d-%d" % (i, j), [Fld("x", I32), Fld("a", I32)], Disp([Lit(LITS[i]), Ph("x", None), Lit(LITS[j]), Ph("a", "x"), Lit(LITS[i])]))
    return out


FIELD_NAMES = ["a", "ab", "a_b", "_a", "__a", "A", "Ab", "a1", "a_", "x", "_0", "_1", "__field0", "__field_a", "__display_a", "__pointer_a", "__display0",
               "f", "fmt", "formatter", "args", "result", "error", "msg", "message", "kind", "value", "inner", "display", "debug", "write", "req",
               "r#type", "r#match", "r#fn", "r#async", "r#move", "r#ref", "r#try", "r#dyn", "r#as", "r#in", "r#raw", "r#union", "r#abc", "r#static", "r#box", "union", "auto", "raw", "default",
               "err", "e", "b", "o", "p", "r", "rx", "rr", "r_", "e1", "x0", "width", "w", "string", "option", "some", "none", "ok", "self_", "this", "that", "field", "var", "local",
               "größe", "h", "höhe", "été", "数", "r#数据", "ñ", "_é", "long_name_with_many_parts_and_digits_0123456789", "T", "E", "usize_", "std", "core", "thiserror", "unused", "Display_", "tag",
               "safe", "macro_rules", "gen", "r#gen", "r#abstract", "r#await", "r#struct", "r#enum", "r#yield", "r#while", "r#where", "r#pub", "r#mod", "r#let", "r#loop", "r#true", "r#false", "r#unsafe", "r#use", "r#final", "r#macro", "r#override", "r#virtual", "r#const", "r#trait", "r#impl", "r#for", "r#if", "r#else", "r#return", "r#extern"]


def fam_names():
    """Placeholders reach the field they name, whatever the other fields are called."""
    out = []
    for n in FIELD_NAMES:
        u = unraw(n)
        fs = [Fld(n, I32), Fld("zz", PATHBUF)]
        out += both_d("name/" + n, fs, Disp([Lit("m "), Ph(u, None), Lit(" "), Ph(u, "?"), Ph("zz", None)]))
        out += both_d("name-arg/" + n, fs, Disp([Ph(None, None), Ph(u, "x")], [Arg("<<0>>")]))
        out += both_d("name-path/" + n, [Fld(n, PATHBUF), Fld("zz", REFI)], Disp([Ph(u, None), Ph("zz", "p")]))
        if u not in ("zz",):
            out += both_d("name-ptr/" + n, [Fld(n, REFI), Fld("zz", I32)], Disp([Ph(u, "p"), Ph("zz", None), Ph(u, "e")]))
    # Pairs in which one name is part of the other, or is a name the macro could make up for the other.
    pairs = [("a", "ab"), ("ab", "a"), ("a", "_a"), ("a", "__field_a"), ("a", "__display_a"), ("__display_a", "a"), ("a", "__pointer_a"), ("_a", "__field_a"),
             ("a", "A"), ("a", "a_"), ("a", "a1"), ("r#type", "type_"), ("r#type", "r#typ"), ("_0", "_1"), ("h", "höhe"), ("höhe", "h"), ("r", "r#ref"),
             ("x", "xx"), ("a", "a_b"), ("f", "fmt"), ("__field__a", "_a"), ("display_a", "a")]
    for m, n in pairs:
        for s, t in ((None, None), (None, "?"), ("?", None), ("p", None), ("p", "?"), ("x", "p"), (">3", "p")):
            out += both_d("pair/%s,%s/%s,%s" % (m, n, s, t), [Fld(m, REFI), Fld(n, REFI)],
                          Disp([Ph(unraw(m), s), Lit("|"), Ph(unraw(n), t), Ph(unraw(m), t), Ph(unraw(n), s)]))
    return out


def fam_positions(maxn=14):
    """Tuple bodies of every size: each index reaches its own field."""
    out = []
    ty = [I32, PATHBUF, STRING, REFI, U8, STR]
    for n in range(1, maxn + 1):
        fs = [Fld(None, ty[i % len(ty)]) for i in range(n)]
        ids = list(range(n))
        out += both_d("tuple/%d/all" % n, fs, Disp(sum([[Ph(i, None), Lit(",")] for i in ids], [])))
        out += both_d("tuple/%d/rev" % n, fs, Disp([Ph(i, "?") for i in reversed(ids)]))
        for i in ids:
            out += both_d("tuple/%d/%d" % (n, i), fs, Disp([Ph(i, None), Lit("0"), Ph(i, "?")]))
            out += both_d("tuple/%d/expr%d" % (n, i), fs, Disp([Ph("x", "?"), Ph(None, "?")][:1], [Arg("&<<%d>>" % i, "x")]))
    out.append(None)
    out.pop()
    for raw, i in (("{00}", 0), ("{01}", 1), ("{000:?}", 0), ("{1 }", 1), ("{0 :?}", None), ("{007}", 7)):
        if i is None:
            continue
        sp = "?" if "?" in raw else None
        fs = [Fld(None, I32) for _ in range(8)]
        out += both_d("tuple/raw/" + raw, fs, Disp([Lit("a"), Ph(i, sp, raw=raw)]))
    for n in (20, 33, 101):
        fs = [Fld(None, ty[i % 3]) for i in range(n)]
        out += both_d("tuple/%d" % n, fs, Disp([Ph(n - 1, None), Lit(" "), Ph(n // 10, None), Ph(n // 10 * 10 % n, "?"), Ph(1, "?")]))
    for n in (12, 40):
        fs = [Fld("f%d" % i, ty[i % len(ty)]) for i in range(n)]
        out += both_d("named/%d" % n, fs, Disp(sum([[Ph("f%d" % i, "?" if i % 2 else None), Lit(" ")] for i in range(n)], [])))
    return out


def fam_named_args():
    """Named arguments take precedence over fields; everything else still names a field."""
    out = []
    fs = lambda: [Fld("a", I32), Fld("b", I32), Fld("r#type", I32), Fld("p", PATHBUF)]
    cases = [
        ([Ph("a"), Ph("b")], [Arg("5", "a")]),
        ([Ph("a"), Ph("b")], [Arg("5", "b")]),
        ([Ph("a", "?"), Ph("a")], [Arg("<<1>> + 1", "a")]),
        ([Ph("a"), Ph("b"), Ph("a", "x")], [Arg("1", "a"), Arg("2", "b")]),
        ([Ph("a"), Ph("c")], [Arg("<<0>>", "c")]),
        ([Ph("c"), Ph("p"), Ph("c", "?")], [Arg("<<3>>.display()", "c")] if False else [Arg("<<0>>", "c")]),
        ([Ph("type")], [Arg("1", "r#type")]),
        ([Ph("type"), Ph("a")], [Arg("<<2>> * 2", "r#type")]),
        ([Ph("p")], [Arg("<<3>>.display()", "p")]),
        ([Ph("p"), Ph("p", "?")], [Arg("1", "p")]),
        ([Ph(None), Ph("a"), Ph("b")], [Arg("10"), Arg("5", "a")]),
        ([Ph(0), Ph("a"), Ph("b")], [Arg("10"), Arg("5", "a")]),
        ([Ph(1), Ph("a"), Ph(0), Ph("b")], [Arg("10"), Arg("<<0>>"), Arg("5", "b")]),
        ([Ph(None), Ph(None, "x"), Ph("p")], [Arg("<<0>>"), Arg("<<1>>")]),
        ([Ph("a"), Ph("__display_a")], [Arg("7", "__display_a")]),
        ([Ph("a"), Ph("b"), Ph("__display_a"), Ph("___display_a")], [Arg("7", "__display_a"), Arg("8", "___display_a")]),
        ([Ph("a", "?"), Ph("__field_a")], [Arg("7", "__field_a")]),
        ([Ph("a", "x"), Ph("a"), Ph("__field_a"), Ph("__display_a")], [Arg("7", "__field_a"), Arg("8", "__display_a")]),
        ([Ph("a", ">3"), Ph("__field_a")], [Arg("<<1>>", "__field_a")]),
        ([Ph("A"), Ph("a")], [Arg("7", "A")]),
        ([Ph("ab"), Ph("a"), Ph("b")], [Arg("7", "ab")]),
        ([Ph("_a"), Ph("a"), Ph("b")], [Arg("7", "_a")]),
        ([Ph("a"), Ph("LIMIT")], []),
        ([Ph("LIMIT", "?"), Ph("K", "x"), Ph("b")], []),
        ([Ph("r"), Ph("a")], [Arg("1", "r")]),
        ([Ph("if"), Ph("a")], [Arg("1", "r#if")]),
        ([Ph("a"), Ph("a")], [Arg("if *<<0>> == 1 { 1 } else { 2 }", "a")]),
        ([Ph("a"), Ph("b")], [Arg("*<<0>> == 5", "a"), Arg("*<<1>> != 5", "b")]),
    ]
    for i, (ps, args) in enumerate(cases):
        for tr in (False, True):
            pcs = []
            for q in ps:
                pcs += [q, Lit("/")]
            out += both_d("namedarg/%d/%s" % (i, tr), fs(), Disp(pcs, args, trailing=tr and bool(args)))
    ts = lambda: [Fld(None, I32), Fld(None, I32), Fld(None, PATHBUF)]
    tcases = [
        ([Ph(0), Ph("x")], [Arg("<<1>>", "x")]),
        ([Ph("x"), Ph(1), Ph(2)], [Arg("<<0>> + <<1>>", "x")]),
        ([Ph("_0"), Ph(0)], [Arg("5", "_0")]),
        ([Ph("__display0"), Ph(0)], [Arg("5", "__display0")]),
        ([Ph("__field0", "?"), Ph(0, "?"), Ph(0)], [Arg("5", "__field0")]),
        ([Ph(None), Ph(None)], [Arg("<<0>>"), Arg("<<1>>")]),
        ([Ph(None), Ph("y"), Ph(None, "?")], [Arg("<<1>>"), Arg("&<<2>>"), Arg("3", "y")]),
        ([Ph(0), Ph(1, "x"), Ph(0, "?")], []),
        ([Ph("LIMIT"), Ph(1)], []),
    ]
    for i, (ps, args) in enumerate(tcases):
        pcs = []
        for q in ps:
            pcs += [q, Lit("/")]
        out += both_d("namedarg-tuple/%d" % i, ts(), Disp(pcs, args))
    # Positional placeholders of a body with named fields, or none, are those of the format string.
    out += both_d("positional/unit", [], Disp([Ph(None), Ph(0), Ph(1, "?")], [Arg("1"), Arg("2")]))
    out += both_d("positional/unit2", [], Disp([Ph("x"), Ph("K")], [Arg("K + 1", "x")]))
    return out


# Expressions over fields  0: a i32, 1: b i32, 2: c bool, 3: s String, 4: sh Sh, 5: v Vec<i32>, 6: o Option<i32>, 7: t Tup
EXPRS = """<<0>>
*<<0>>
-<<0>>
!<<0>>
&<<0>>
&&<<0>>
&*<<0>>
-*<<0>>
<<0>> + <<1>>
<<0>> - <<1>>
<<0>> * <<1>>
<<0>> / <<1>>
<<0>> % <<1>>
<<0>> ^ <<1>>
<<0>> & <<1>>
<<0>> | <<1>>
*<<0>> << *<<1>>
*<<0>> >> *<<1>>
<<0>> == <<1>>
<<0>> != <<1>>
<<0>> <= <<1>>
<<0>> >= <<1>>
*<<0>> < *<<1>>
(*<<0>> > *<<1>>)
*<<0>> > *<<1>>
*<<2>> && !*<<2>>
*<<2>> || <<0>> == <<1>>
*<<2>> && <<0>> == &<<4>>.hi.1.0.into()
(<<0>>)
(<<0>> + <<1>>) * <<0>>
(<<0>>, <<1>>).1
(<<0>>, <<1>>, <<2>>).0
[<<0>>, <<1>>][0]
[*<<0>>; 2][1]
<<5>>[0]
<<5>>[<<4>>.lo]
<<5>>[<<4>>.lo + 1]
<<5>>[..].len()
<<5>>[<<4>>.lo..].len()
<<5>>[<<4>>.lo..=<<4>>.lo].len()
<<4>>.lo
<<4>>.hi.0
<<4>>.hi.1.0
<<4>>.hi.1.1
<<7>>.0
<<7>>.1.0
<<7>>.1.1
<<7>>.2[0]
-<<7>>.1.0
<<3>>.len()
<<3>>.len() + <<5>>.len()
<<3>>.as_str()
<<3>>.trim().len()
<<3>>.chars().count()
<<3>>.chars().next().unwrap_or('x')
&<<3>>[..]
&<<3>>[1..]
<<5>>.iter().sum::<i32>()
<<5>>.iter().map(|x| x + <<0>>).sum::<i32>()
<<5>>.iter().map(|x| x + 1).sum::<i32>() + <<0>>
<<5>>.iter().zip(<<5>>.iter()).map(|(x, y)| x + y).sum::<i32>()
<<5>>.iter().fold(0, |acc, x| acc + x)
<<5>>.iter().copied().fold(*<<0>>, |acc, x| acc + x)
<<5>>.iter().map(|x| -> i32 { x + <<0>> }).sum::<i32>()
<<5>>.iter().map(move |x: &i32| *x).max().unwrap_or(*<<1>>)
<<5>>.iter().any(|q| q == <<0>>)
<<5>>.iter().filter(|&&x| x == *<<0>>).count()
<<5>>.get(0).map_or(0, |a| *a)
<<6>>.unwrap_or(*<<0>>)
<<6>>.unwrap_or_default()
<<6>>.map_or(*<<0>>, |n| n + <<1>>)
<<6>>.is_some_and(|n| n > *<<0>>)
id(<<0>>)
id(*<<0>>)
id::<i32>(*<<0>>)
id::<&i32>(<<0>>)
two(<<0>>, <<1>>)
two::<&i32, &i32>(<<0>>, <<1>>)
two::<i32, Option<i32>>(*<<0>>, *<<6>>)
two::<i32, Result<i32, (u8, u8)>>(*<<0>>, Ok(*<<1>>))
two::<_, fn(i32, i32) -> i32>(*<<0>>, |x, y| x + y)
two(two(<<0>>, <<1>>), two(<<1>>, <<0>>))
pick(<<2>>, *<<0>>, *<<1>>)
std::cmp::max(<<0>>, <<1>>)
std::cmp::max::<i32>(*<<0>>, *<<1>>)
::core::cmp::min(<<0>>, <<1>>)
<i32 as Mk>::mk(<<0>>)
<i32>::max(*<<0>>, *<<1>>)
<Vec<i32>>::len(<<5>>)
Vec::<i32>::with_capacity(*<<0>> as usize).len()
Mk::mk(<<0>>)
<<0>>.mk()
<<3>>.mk()
i32::MAX
i32::MAX - <<0>>
std::i32::MAX
K
K + <<0>>
LIMIT
*<<0>> as u8
*<<0>> as i64 as usize
<<4>>.lo as f32
(*<<0>> as u8) < 3
*<<0>> as u8 + 1
if *<<2>> { <<0>> } else { <<1>> }
if <<0>> == <<1>> { <<0>> } else { <<1>> }
if <<0>> < <<1>> { 1 } else if *<<2>> { 2 } else { 3 }
if *<<2>> { *<<0>> } else { *<<1>> } + 1
if let Some(n) = <<6>> { n } else { <<0>> }
if let Some(n) = <<6>> { *n } else if let Some(m) = <<5>>.first() { *m } else { 0 }
if let (Some(n), true) = (<<6>>, <<2>>) { *n } else { 0 }
match <<6>> { Some(n) => n, None => <<0>> }
match <<6>> { Some(n) if n > <<0>> => *n, Some(_) | None => *<<0>> }
match *<<0>> { 0 => <<0>>, 1..=5 => <<1>>, _ => <<0>> }
match (<<0>>, <<1>>) { (0, x) | (x, 0) => x, (x, _) => x }
match <<4>> { Sh { lo, .. } => lo }
match <<4>> { Sh { lo, hi: (a, (b, c)) } => *lo + *a as usize }
match <<7>> { Tup(a, ..) => a }
match <<2>> { true => "t", false => "f" }
match <<3>>.as_str() { "x" => 1, _ => 2 }
match <<5>>[..] { [a, ..] => a, [] => *<<0>> }
match <<5>>.as_slice() { [first, .., last] => first + last, [x] => *x, [] => *<<0>> }
match *<<0>> { x @ 1..=9 => x, x => -x }
match *<<0>> { -1 => <<1>>, i32::MAX => <<0>>, _ => <<1>> }
match <<6>> { &Some(ref n) => *n, &None => 0 }
{ <<0>> }
{ let x = <<0>>; x }
{ let x = *<<0>>; let y = *<<1>>; x + y }
{ let a = 5; a + 1 }
{ let mut n = 0; for x in <<5>> { n += x; } n }
{ let mut n = 0; while n < *<<0>> { n += 1; } n }
{ let b = *<<0>> == 1; b }
unsafe { *<<0>> }
unsafe { <<0>> }
loop { break <<0>> }
loop { break *<<0>> + 1; }
loop { if *<<2>> { break <<0>> } else { break <<1>> } }
'l: { if *<<2>> { break 'l 1 } 2 }
'l: loop { loop { break 'l *<<0>> } }
(|| *<<0>>)()
(|x: i32| x + <<0>>)(1)
(|x, y| x + y)(*<<0>>, *<<1>>)
(|x: i32, y: i32| -> i32 { x + y })(*<<0>>, *<<1>>)
(move || *<<0>>)()
(|Sh { lo, .. }: &Sh| *lo)(<<4>>)
(|&x: &i32| x)(<<0>>)
(|(x, y): (i32, i32)| x)((1, 2))
(Sh { lo: 1, ..*<<4>> }).hi.0
{ let Sh { lo, .. } = <<4>>; lo }
"text"
b"bytes".len()
'c'
b'c'
1
1.5
1e3
-1
0xff_u8
r"raw"
r#"ra"w"#
true
()
("a", <<0>>).0
stringify!(a = 1, b = 2)
concat!("a", "b", 1)
format!("{}", <<0>>)
format!("{a} {}", <<0>>, a = 1)
format_args!("{}", <<0>>)
matches!(<<6>>, Some(n) if *n == *<<0>>)
vec![*<<0>>, *<<1>>].len()
vec![<<0>>; 3].len()
{ macro_rules! mm { () => { 1 } } mm!() }
(*<<0>>..*<<1>>).len()
(*<<0>>..=*<<1>>).count()
(..*<<0>>).end
(*<<0>>..).start
std::mem::size_of::<(i32, [u8; 4])>()
std::mem::size_of::<[i32; { 1 + 2 }]>()
std::mem::size_of::<Box<dyn Fn(i32, i32) -> i32 + Send>>()
std::mem::size_of::<&dyn Tr<A = i32, B = u8>>()
std::mem::size_of_val(&<<0>>)
Some(<<0>>).copied().unwrap_or(0)
Some::<i32>(*<<0>>).unwrap()
Ok::<i32, ()>(*<<0>>).unwrap_or(1)
Option::<i32>::None.unwrap_or(*<<0>>)
Option::<(i32, i32)>::None.map_or(*<<0>>, |(a, b)| a + b)
<<6>>.ok_or("none").unwrap_or(0)
<<3>>.parse::<i32>().ok().unwrap_or(*<<0>>)
<<3>>.split(',').map(str::trim).collect::<Vec<_>>().len()
<<3>>.bytes().map(|b| b as u32).sum::<u32>()
std::convert::identity::<for<'x> fn(&'x str) -> &'x str>(str::trim)(<<3>>)
<<0>>.clone()
<<0>>.max(<<1>>)
<<0>>.pow(2)
<<0>>.cmp(<<1>>).is_eq()
(&<<0>>).clone()
&(<<0>>, <<1>>).0
&mut 5
&raw const *<<0>> == &raw const *<<1>>
&raw const *<<0>>
return_value(<<0>>)
&{ <<0>> }
!{ *<<2>> }
-{ *<<0>> }
*{ <<0>> }
<<0>>.mk() + <<1>>.mk()
<<0>> . mk ( )
true && <<0>> == <<1>> && *<<2>>
(true, <<2>>).0 && *<<2>>
*<<0>> | *<<1>> & 3 ^ 4
*<<0>> + if *<<2>> { 1 } else { 2 }
*<<0>> + match <<6>> { Some(x) => *x, None => 1 }
two(if *<<2>> { <<0>> } else { <<1>> }, match 1 { _ => <<1>> })
async { 1 }.mk()
async move { 1 }.mk()
const { 1 + 2 }
const { K }""".split("\n")
EXPRS = [e for e in EXPRS if e and "return_value" not in e]
NON_COPY_ONLY = ()


EFIELDS = [("a", I32), ("b", I32), ("c", BOOL), ("s", STRING), ("sh", SH), ("v", VEC), ("o", OPTI), ("t", TUP)]


def efields(named, names=None):
    names = names or [n for n, _ in EFIELDS]
    return [Fld(names[i] if named else None, t) for i, (_, t) in enumerate(EFIELDS)]


def fam_exprs():
    """Each expression as the only argument, before and after named arguments that shadow a field."""
    out = []
    for e in EXPRS:
        for named in (True, False):
            fs = efields(named)
            st = "named" if named else "tuple"
            key = "expr/%s/%s" % (st, e)
            b = lambda k, d: both(key + "/" + k, fs, st, d)
            out += b("pos", Disp([Lit("m "), Ph(None, "?")], [Arg(e)]))
            out += b("named", Disp([Ph("n", "?"), Lit("!")], [Arg(e, "n")], trailing=True))
            if named:
                out += b("then-named", Disp([Ph(None, "?"), Ph("b"), Ph("a"), Ph("LIMIT")], [Arg(e), Arg("9", "b")]))
                out += b("named-then", Disp([Ph("a", "?"), Ph("b"), Ph("c")], [Arg(e, "a"), Arg("9", "b")]))
                out += b("pos-pos-named", Disp([Ph(None, "?"), Ph(None), Ph("b"), Ph("c", "?")], [Arg(e), Arg("<<0>>"), Arg("<<1>>", "b")]))
            else:
                out += b("named-two", Disp([Ph("m", "?"), Ph("n", "?"), Ph(0), Ph(1)], [Arg(e, "m"), Arg("<<1>>", "n")]))
    return out


# Contexts in which a shorthand begins an expression; X is an i32 reference
CONTEXTS = """X
*X
-X
!X
&X
&&X
&mut { *X }
1 + X
1 - X
1 * X
7 / X
7 % X
7 ^ X
7 & X
7 | X
1 << *X
64 >> *X
&1 == X
&1 != X
&1 <= X
&1 >= X
&1 < X
&1 > X
true && &1 == X
*X == 1 || *X == 2
(X)
(X, X).1
[X, X][1]
[X; 1][0]
{ X }
{ ; X }
{ let y = X; y }
{ let y; y = X; y }
{ let mut y = 1; y += X; y }
{ let mut y = 1; y -= X; y }
{ let mut y = 1; y *= X; y }
{ let mut y = 1; y |= X; y }
{ let mut y = 1; y ^= X; y }
{ let mut y = 1; y <<= X; y }
{ 1; X }
if *X == 1 { X } else { &2 }
if X == &1 { 1 } else { 2 }
if let 1 = X { X } else { X }
if let 1 = *X { 1 } else if X == &2 { 2 } else { 3 }
match X { x => x }
match 1 { _ => X }
match 1 { 0 => &2, _ if X == &1 => X, _ => X }
match 1 { 0 => { X } _ => X, }
id(X)
two(1, X)
two(X, X)
two(X, 1,)
id::<&i32>(X)
Some(X)
(|| X)()
(|y| X + y)(1)
(|_: i32| X)(1)
(|_| -> &i32 { X })(1)
(move || X)()
loop { break X }
loop { break X; }
'l: loop { break 'l *{ X } }
{ for _ in *X..3 {} 1 }
{ while X == &1 { break } 1 }
{ while let 1 = X { break } 1 }
vec![X]
vec![1, *X]
vec![X; 2]
[1, *X, *X].len()
*X as u8
X.mk()
X.clone().mk()
X.max(X)
(X).mk()
(0..*X).len()
(0..=*X).start().mk()
(1, *X..=3).1
format!("{}", X)
format!("{x}", x = X)
Sh { lo: *X as usize, hi: (1, (2, 3)) }
{ (|| -> i32 { return *X; })() }
{ (|| -> &i32 { return X })() }
unsafe { X }
unsafe { *X }
-*X
!*X
- X
& X
1 + - *X
1 - (-X)
& & X
(& X, 1)
{ { X } }
[[X]]
((X))
{ let [y] = [X]; y }
{ let (y, z) = (X, X); y }
1 > 0 && X > &1
id(X) + id(X)
1 + X + X
1 +X
1+X
X+1
X-1
X==X
X>X
X < X
X<=X""".split("\n")


def fam_contexts():
    out = []
    for c in CONTEXTS:
        e = c.replace("X", "<<0>>")
        for named, nm in ((True, "a"), (True, "r#type"), (True, "_x"), (False, None)):
            if nm in ("r#type",):
                continue    # `.r#type` and `.type` are covered by fam_dotted_keyword
            fs = [Fld(nm, I32), Fld("other" if named else None, I32)]
            out += both("ctx/%s/%s" % (nm, c), fs, "named" if named else "tuple", Disp([Ph(None, "?")], [Arg(e)]))
            out += both("ctx-named/%s/%s" % (nm, c), fs, "named" if named else "tuple", Disp([Ph("z", "?"), Ph("y", "?")], [Arg(e, "z"), Arg(e, "y")]))
    # Nested tuple members
    nest = Ty("(i32, (i32, i32), [i32; 2])", traits="?")
    for c in ("X.0", "X.1.0", "X.1.1", "X.2[0]", "X.2[X.0 as usize]", "1 + X.0", "1 + X.1.0", "-X.1.1", "(X.0, X.1.1)", "&X.0", "&X.1", "[X.0, X.1.0]", "X.1.0.mk()", "X.0.mk()", "X .0", "X.1 .0",
              "two(X.0, X.1.1)", "if X.0 == X.1.0 { X.0 } else { X.1.1 }", "X.0 + X.1.0 * X.1.1", "X.0 == 1 && X.1.0 == 2", "*&X.0", "{ X.0 }", "|q: i32| X.0 + q".join(("(", ")(1)"))):
        e = c.replace("X", "<<1>>")
        for named in (True, False):
            fs = [Fld("a" if named else None, I32), Fld("tup" if named else None, nest)]
            out += both("nest/%s/%s" % (named, c), fs, "named" if named else "tuple", Disp([Ph(None, "?"), Ph("z", "?")], [Arg(e), Arg(e, "z")]))
    # Two-digit indices, and indices followed by more members
    for n in (11, 13):
        fs = [Fld(None, nest) for _ in range(n)]
        for i in (0, 1, n - 1, 10):
            for e in ("<<%d>>.0" % i, "<<%d>>.1.0" % i, "1 + <<%d>>.1.1" % i, "&<<%d>>" % i, "(<<%d>>.0, <<1>>.1.1)" % i, "id(<<%d>>.2)[1]" % i):
                out += both("bigidx/%d/%s" % (n, e), fs, "tuple", Disp([Ph("z", "?")], [Arg(e, "z")]))
    return out


def fam_enum_level():
    """Messages on the enum itself apply to the variants without one of their own."""
    out = []
    code = lambda nm="code": [Fld(nm, I32), Fld("p", PATHBUF)]
    tup = lambda: [Fld(None, I32), Fld(None, PATHBUF)]
    own = Disp([Lit("own "), Ph("code", "?")])
    k = 0

    def add(name, bodies, msg, **kw):
        out.append(Witness("enumlevel/" + name, Shape("enum", "S", bodies, msg=msg, **kw)))
    lit = Disp([Lit("all of it")])
    nm = Disp([Lit("code "), Ph("code"), Lit(" "), Ph("p")])
    ar = Disp([Ph(None), Ph("code", "x"), Ph("q")], [Arg("<<0>> + 1"), Arg("2", "q")])
    tp = Disp([Ph(0), Lit(":"), Ph(1), Ph(0, "?")])
    N = lambda n, m=None: Body(n, "named", code(), m)
    T = lambda n, m=None: Body(n, "tuple", tup(), m)
    U = lambda n, m=None: Body(n, "unit", [], m)
    add("lit", [N("A"), T("B"), U("C")], lit)
    add("lit-own", [N("A"), T("B", Disp([Ph(1), Ph(0)])), U("C")], lit)
    add("lit-own-all", [N("A", own), U("C", Disp([Lit("c")]))], lit)
    add("named", [N("A"), N("B")], nm)
    add("named-own", [N("A"), N("B", own), U("C", Disp([Lit("c")]))], nm)
    add("named-own-first", [N("B", own), N("A"), N("C")], nm)
    add("named-args", [N("A"), N("B")], ar)
    add("tuple", [T("A"), T("B")], tp)
    add("tuple-own", [T("A", Disp([Ph(0)])), T("B"), T("C", Disp([Lit("z"), Ph(1)]))], tp)
    er = lambda n, t, at, m=None: Body(n, "tuple", [Fld(None, t, at)], m)
    add("transparent-variant", [er("A", E(0), ("from",), Transparent()), U("B"), N("C")], lit)
    add("transparent-variant2", [N("A"), er("B", BOX_SS, (), Transparent()), N("C", own)], nm)
    add("transparent-level", [er("A", E(0), ("from",)), er("B", E(1), ("from",)), er("C", BOX_SS, ())], Transparent())
    add("transparent-level-own", [er("A", E(0), ("from",)), er("B", E(1), ("source",), Disp([Lit("b: "), Ph(0)])), U("C", Disp([Lit("c")])), N("D", own)], Transparent())
    add("fmt-variant", [Body("A", "named", code(), FmtPath("hf::named")), Body("B", "tuple", tup(), FmtPath("hf::tup")), U("C", FmtPath("hf::unit")), U("D", Disp([Lit("d")]))], None,
        pre=HF)
    add("fmt-level", [N("A"), Body("B", "named", [Fld("p", PATHBUF), Fld("code", I32)], FmtPath("hf::swap")), N("C", own), er("D", E(0), (), Transparent())], FmtPath("hf::named"), pre=HF)
    add("fmt-level-generic", [N("A")], FmtPath("hf::gn::<i32, PathBuf>"), pre=HF)
    add("fmt-variant-under-lit", [N("A", FmtPath("hf::named")), T("B", FmtPath("self::hf::tup")), U("C")], lit, pre=HF)
    add("fmt-under-transparent", [N("A", FmtPath("hf::named")), er("B", E(0), ("from",)), U("C", FmtPath("hf::unit"))], Transparent(), pre=HF)
    add("lit-under-fmt", [N("A"), N("B", nm)], FmtPath("hf::named"), pre=HF)
    add("fmt-raw", [Body("A", "named", [Fld("r#type", I32), Fld("p", PATHBUF)], FmtPath("hf::named")), Body("B", "tuple", [Fld(None, I32)] * 12, FmtPath("hf::twelve"))], None, pre=HF)
    add("fmt-std", [Body("A", "tuple", [Fld(None, I32)], FmtPath("core::fmt::Display::fmt")), Body("B", "tuple", [Fld(None, E(0), ("from",))], FmtPath("<E0 as std::fmt::Display>::fmt"))], None)
    add("fmt-source", [Body("A", "named", [Fld("source", E(0)), Fld("code", I32)], FmtPath("hf::src")), U("B", Disp([Lit("b")]))], None, pre=HF)
    return out


def fam_self():
    """Messages that print the error itself, in every place a message can stand."""
    out = []
    pieces = {
        "d": [Ph("self")], "dbg": [Ph("self", "?")], "wide": [Ph("self", ">9")], "alt": [Ph("self", "#?")], "twice": [Ph("self"), Ph("self", "?")], "esc": [Lit("{self}"), Ph("self", "<4")], "none": [Lit("{self}")],
    }
    for k, ps in pieces.items():
        for q, pre in (("", []), ("lit", [Lit("a ")]), ("field", [Ph("a"), Ph("p"), Ph("a", "x")])):
            for named in (True, False):
                fs = [Fld("a" if named else None, I32), Fld("p" if named else None, PATHBUF)]
                pre2 = [Ph(("a", "p").index(x.arg), x.spec) if isinstance(x, Ph) and not named else x for x in pre]
                for args in ((), (Arg("<<0>>", "zz"),)):
                    d = Disp(pre2 + ps + ([Ph("zz")] if args else []), args)
                    out += both_d("self/%s/%s/%s/%d" % (k, q, named, len(args)), fs, d)
        out.append(Witness("self/%s/level" % k, Shape("enum", "S", [Body("A", "tuple", [Fld(None, I32)]), Body("B", "unit"), Body("C", "unit", [], Disp([Lit("c")]))], msg=Disp([Lit("m")] + ps))))
        out.append(Witness("self/%s/unit" % k, Shape("struct", "S", [Body("S", "unit", [], Disp(ps))])))
        out.append(Witness("self/%s/units" % k, Shape("enum", "S", [Body("A", "unit", [], Disp(ps)), Body("B", "unit", [], Disp([Lit("x")] + ps)), Body("C", "unit", [], Disp([Lit("y")]))])))
    return out


HF = """pub mod hf { use super::*; use std::fmt::{Formatter, Result};
 pub fn named(_c: &i32, _p: &PathBuf, f: &mut Formatter<'_>) -> Result { f.write_str("n") }
 pub fn swap(_p: &PathBuf, _c: &i32, f: &mut Formatter<'_>) -> Result { f.write_str("s") }
 pub fn tup(_c: &i32, _p: &PathBuf, f: &mut Formatter<'_>) -> Result { f.write_str("t") }
 pub fn unit(f: &mut Formatter<'_>) -> Result { f.write_str("u") }
 pub fn gn<A, B>(_a: &A, _b: &B, f: &mut Formatter<'_>) -> Result { f.write_str("g") }
 pub fn src(_s: &E0, _b: &i32, f: &mut Formatter<'_>) -> Result { f.write_str("g") }
 pub fn twelve(_a: &i32, _b: &i32, _c: &i32, _d: &i32, _e: &i32, _f: &i32, _g: &i32, _h: &i32, _i: &i32, _j: &i32, _k: &i32, _l: &i32, f: &mut Formatter<'_>) -> Result { f.write_str("g") }
}"""


def fam_big_enums(sizes=(1, 2, 7, 11, 12, 25, 60)):
    """Enums with many variants, each with its own message and roles."""
    out = []
    for n in sizes:
        bs = []
        for i in range(n):
            k = i % 6
            if k == 0:
                bs.append(Body("V%d" % i, "unit", [], Disp([Lit("unit %d" % i)])))
            elif k == 1:
                bs.append(Body("V%d" % i, "tuple", [Fld(None, I32), Fld(None, PATHBUF)], Disp([Lit("t%d " % i), Ph(1), Ph(0, "x")])))
            elif k == 2:
                bs.append(Body("V%d" % i, "named", [Fld("source", SRC[i % len(SRC)]), Fld("x", I32)], Disp([Lit("n%d " % i), Ph("x"), Ph("source")])))
            elif k == 3:
                bs.append(Body("V%d" % i, "tuple", [Fld(None, BT)], Disp([Lit("bt%d" % i)])))
            elif k == 4:
                bs.append(Body("V%d" % i, "tuple", [Fld(None, SRC[i % len(SRC)])], Transparent()))
            else:
                bs.append(Body("V%d" % i, "tuple", [Fld(None, option(SRC[i % len(SRC)]), ("source", "backtrace"))], Disp([Lit("o%d" % i), Ph(0, "?")])))
        # one variant can convert from an error of its own
        bs.append(Body("Last", "tuple", [Fld(None, Ty("Optional", src="ref"), ("from",)), Fld(None, BT)], Disp([Lit("last "), Ph(0)])))
        out.append(Witness("bigenum/%d" % n, Shape("enum", "S", bs)))
    return out


def rand_disp(rng, names, tys):
    pcs, args = [], []
    used = set()
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        if k < 0.35:
            pcs.append(Lit(rng.choice(LITS[1:])))
        elif k < 0.9 and names:
            i = rng.randrange(len(names))
            if names[i] is not None and unraw(names[i]) in used:
                continue
            ok = [s for s in SPECS if ok_ty(tys[i], s)]
            pcs.append(Ph(i if names[i] is None else unraw(names[i]), rng.choice(ok + [None] if ok_ty(tys[i], None) else ok)))
        else:
            nm = rng.choice(["extra", "__field_a", "__display_b", "b", "a", "zed", "__display0", "_1"])
            if nm in used or any(isinstance(p, Ph) and p.arg == nm for p in pcs):
                continue
            used.add(nm)
            i = rng.randrange(len(names)) if names else None
            args.append(Arg("<<%d>>" % i if i is not None else "1", nm))
            pcs.append(Ph(nm, "?"))
    return Disp(pcs, args, trailing=bool(args) and rng.random() < 0.3)


def fam_random_display(rng, count):
    out = []
    types = [I32, REFI, BOXI, STR, U8, F64, PATHBUF, PATHREF, STRING, VEC, BOOL]
    types = [Ty(t.text, traits=t.traits, disp=t.disp) for t in types]
    while len(out) < count:
        n = rng.randint(0, 5)
        if rng.random() < 0.5:
            names = rng.sample([x for x in FIELD_NAMES if x not in ("_0", "_1")], n)
            # two spellings of one name cannot be in the same body
            if len({unraw(x) for x in names}) < n:
                continue
        else:
            names = [None] * n
        tys = [rng.choice(types) for _ in range(n)]
        d = rand_disp(rng, names, tys)
        fs = [Fld(a, t) for a, t in zip(names, tys)]
        key = "rand/%s" % msg_attr(Body("S", "named" if n and names[0] else "tuple", fs), d)
        out += both_d(key + "/" + ",".join("%s:%s" % (a, t.text) for a, t in zip(names, tys)), fs, d)
    return out


def fam_captures():
    """Shorthands inside closures and patterns that bind names of their own."""
    out = []
    for nm in ("a", "zz", "b", "_0", "x"):
        for e in ("<<5>>.iter().any(|N| N == <<0>>)", "match 5 { N => N + <<0>> }", "{ let N = 1; N + <<0>> }", "if let Some(N) = Some(1) { N + <<0>> } else { 0 }", "(|N: i32| N + <<0>>)(3)",
                  "(0..3).map(|N| N + <<0>>).sum::<i32>()"):
            e = e.replace("N", nm)
            for named in (True, False):
                captured = nm == ("a" if named else "_0")
                if captured and not e.startswith(("(|", "match")):
                    continue    # (the same finding again)
                fs = efields(named)
                ws = both("capture/%s/%s" % ("named" if named else "tuple", e.replace(" ", "")), fs, "named" if named else "tuple", Disp([Ph(None, "?")], [Arg(e)]))
                out += ws[:1] if captured else ws
    # Functions, macros, modules and types called like a field.
    pre = """pub fn N(x: impl Copy) -> i32 { 5 }
pub mod M { pub fn f(x: &i32) -> i32 { *x } pub const C: i32 = 1; }
macro_rules! N { ($e:expr) => { $e } }
"""
    for nm in ("a", "_0", "zz", "_99"):
        for e in ("N(<<0>>)", "N(1) + <<1>>", "M::f(<<0>>)", "M::C + <<1>>", "N!(<<1>>)", "self::N(<<0>>)", "vec![1].iter().map(|x| self::N(x)).count()"):
            for named in (True, False):
                captured = nm == ("a" if named else "_0") and e.startswith("N(")
                ws = both("capture-fn/%s/%s/%s" % ("named" if named else "tuple", nm, e.replace(" ", "")), efields(named), "named" if named else "tuple",
                          Disp([Ph(None, "?")], [Arg(e.replace("N", nm).replace("M", nm))]), pre=pre.replace("N", nm).replace("M", nm))
                out += ws[:1] if captured else ws
    return out
