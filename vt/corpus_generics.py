"""Shapes about generics: inferred bounds, preserved where-clauses, lifetimes, const parameters, defaults."""
import itertools, random
from .model import *
from .compare import Witness
from .corpus import role_valid, E, I32, STRING, BOX_SS, BT, OBT, IO, option, UNIT, M
from .corpus_display import ok_ty, PATHBUF, REFI, HF

T = Ty("T", gen=True, src="ref", traits="d?oxXbeEp")
GT = Ty("G<T>", gen=True, src="ref", traits="d?oxXbeEp")
OT = option(T)
OGT = option(GT)
OT_FQ = option(T, "std::option::Option<{}>")
BOXT = Ty("Box<T>", gen=True, src="ref", traits="d?oxXbeEp")
ARCT = Ty("Arc<T>", gen=True, src="ref", traits="d?oxXbeEp")
VECT = Ty("Vec<T>", gen=True, traits="d?oxXbeEp")
PHT = Ty("PhantomData<T>", gen=True, traits="?")
TA = Ty("T::A", gen=True, src="ref", traits="d?oxXbeEp")
QTA = Ty("<T as Tr>::A", gen=True, src="ref", traits="d?oxXbeEp")
GTA = Ty("G<T::A>", gen=True, src="ref", traits="d?x")
NEST = Ty("G<G<Vec<T>>>", gen=True, src="ref", traits="d?xp")
RESU = Ty("Result<i32, G<U>>", gen=True, traits="?d")
U = Ty("U", gen=True, src="ref", traits="d?oxXbeEp")
PAIR = Ty("G<(T, U)>", gen=False, traits="")
GI = Ty("G<i32>", src="ref", traits="d?")
TNOT = Ty("self::T0", traits="d?")

LKO = Ty("lk::b::Option<T, E1>", gen=True, src="ref", traits="d?oxXbeEp")
LKB = Ty("lk::Backtrace<T>", gen=True, src="ref", traits="d?oxXbeEp")
GTYPES = [T, GT, BOXT, ARCT, VECT, PHT, NEST, OT, OGT, LKO, LKB]
SPECS = [None, "?", "x", "X", "o", "b", "e", "E", "p", ">5", "#?", "x?"]


def sw(key, b, en=True, **kw):
    """One body as a struct and as a variant among others."""
    out = []
    if not role_valid(b):
        return out
    out.append(Witness(key + "/struct", Shape("struct", "S", [Body("S", b.style, b.fields, b.msg)], **kw)))
    if en:
        out.append(Witness(key + "/enum", Shape("enum", "S", [UNIT("U0"), Body("V", b.style, b.fields, b.msg), Body("W", "tuple", [Fld(None, I32)], Disp([Ph(0)]))], **kw)))
    return out


def fam_bounds():
    out = []
    g1 = dict(generics="<T>", params="<T>")
    for t in GTYPES:
        for s in SPECS:
            if not ok_ty(t, s):
                continue
            for nm in (None, "f", "r#type"):
                ph = 0 if nm is None else unraw(nm)
                st = "tuple" if nm is None else "named"
                out += sw("bound/%s/%s/%s" % (t.text, s, nm), Body("S", st, [Fld(nm, t), Fld(None if nm is None else "o", I32)], Disp([Ph(ph, s)])), **g1)
    # Unused in the message: no bound. Used by an expression only: none inferred.
    for t in GTYPES + [PHT]:
        out += sw("nobound/" + t.text, Body("S", "tuple", [Fld(None, t)], Disp([Lit("x")])), **g1)
        out += sw("nobound-arg/" + t.text, Body("S", "named", [Fld("a", t), Fld("b", I32)], Disp([Ph("a"), Ph("b")], [Arg("1", "a")])), **g1)
    # Several traits on one field; the same trait on several fields; shared types.
    for a, b in itertools.product([None, "?", "x", "p"], repeat=2):
        out += sw("multi/%s,%s" % (a, b), Body("S", "named", [Fld("a", T), Fld("b", GT)], Disp([Ph("a", a), Ph("a", b), Ph("b", b), Ph("b", a)])), **g1)
        out += sw("multi-same-type/%s,%s" % (a, b), Body("S", "tuple", [Fld(None, T), Fld(None, T)], Disp([Ph(0, a), Ph(1, b)])), **g1)
        out += sw("multi-params/%s,%s" % (a, b), Body("S", "tuple", [Fld(None, T), Fld(None, U)], Disp([Ph(0, a), Ph(1, b)])), generics="<T, U>", params="<T, U>")
        out += sw("multi-one/%s,%s" % (a, b), Body("S", "tuple", [Fld(None, T), Fld(None, U), Fld(None, GI)], Disp([Ph(1, a), Ph(1, b), Ph(2)])), generics="<T, U>", params="<T, U>")
    # Bounds come from every variant.
    for order in itertools.permutations([0, 1, 2]):
        bs = [Body("A", "tuple", [Fld(None, T)], Disp([Ph(0)])), Body("B", "named", [Fld("x", T), Fld("y", U)], Disp([Ph("x", "?"), Ph("y", "x")])), Body("C", "tuple", [Fld(None, U, ("source",))], Disp([Ph(0)]))]
        out.append(Witness("variants/%s" % (order,), Shape("enum", "S", [bs[i] for i in order], generics="<T, U>", params="<T, U>")))
    return out


FILLS = ["", "<", "?>", "x^", "$<"]
FLAGS = ["", "+", "#", "0", "-", "+#0"]
WIDTHS = ["", "5", "w$", "e$", "0$"]
PRECS = ["", ".3", ".w$", ".X$", ".*"]
KINDS = ["", "?", "x?", "X?", "x", "X", "o", "b", "e", "E", "p"]


def fam_grammar():
    """The whole grammar of a placeholder: fill and alignment, sign, #, 0, width, precision, kind; on generic and concrete fields."""
    out = []
    for n, (fi, fl, wi, pr, ki) in enumerate(itertools.product(FILLS, FLAGS, WIDTHS, PRECS, KINDS)):
        s = fi + fl + wi + pr + ki
        args = [Arg("3usize")] if pr == ".*" or wi == "0$" else []
        args += [Arg("1 + 1", x) for x in "weX" if x + "$" in s]
        tup = n % 3 == 0 and not (args and args[0].name is None)
        names = (None, None, None) if tup else ("a", "o", "u")
        ph = (lambda i: i) if tup else (lambda i: names[i])
        for gen in (True, False):
            if gen:
                fs = [Fld(names[0], (T, GT, BOXT)[n % 2 if ki == "p" else n % 3]), Fld(names[1], I32), Fld(names[2], U)]
            else:
                fs = [Fld(names[0], REFI), Fld(names[1], I32), Fld(names[2], I32)]
            if not ok_ty(fs[0].ty, s):
                continue
            star = pr == ".*"
            a = [x for x in args if x.name is None] + ([Arg("<<0>>")] if star else []) + [x for x in args if x.name]
            msg = Disp([Lit("m"), Ph(None if star else ph(0), s), Lit("|"), Ph(ph(2), "?")], a)
            if star and gen:
                continue     # an expression: no bound is inferred
            kw = dict(generics="<T, U>", params="<T, U>") if gen else {}
            key = "grammar/%s/%r" % (fs[0].ty.text, s)
            b = Body("S", "tuple" if tup else "named", fs, msg)
            if n % 2:
                out.append(Witness(key + "/struct", Shape("struct", "S", [b], **kw)))
            else:
                out.append(Witness(key + "/enum", Shape("enum", "S", [UNIT("U0"), Body("V", b.style, fs, msg), Body("W", "tuple", [Fld(None, I32)], Disp([Ph(0)]))], **kw)))
    return out


def fam_source_bounds():
    out = []
    g1 = dict(generics="<T>", params="<T>")
    for t in [T, GT, BOXT, NEST, OT, OGT, OT_FQ, LKO, LKB]:
        for nm in (None, "source", "e"):
            for at in ((), ("source",), ("from",), ("source", "backtrace"), ("from", "backtrace")):
                if t in (OT_FQ,) and nm != "source":
                    continue
                if nm != "source" and at == ():
                    continue
                st = "tuple" if nm is None else "named"
                if "from" in at and t in (T, OT):
                    continue     # conflicts with the reflexive From impl
                if "backtrace" in at:
                    pass
                kw = dict(g1)
                out += sw("srcbound/%s/%s/%s" % (t.text, nm, "+".join(at)), Body("S", st, [Fld(nm, t, at)], Disp([Lit("m")])), **kw)
                ph = 0 if nm is None else nm
                out += sw("srcbound-shown/%s/%s/%s" % (t.text, nm, "+".join(at)), Body("S", st, [Fld(nm, t, at)], Disp([Lit("m "), Ph(ph, "?")])), **kw)
    for t in [T, GT, BOXT, NEST]:
        for at in ((), ("from",)):
            if at and t is T:
                continue
            out += sw("transbound/%s/%s" % (t.text, "+".join(at)), Body("S", "tuple", [Fld(None, t, at)], Transparent()), **g1)
    # a type that is only named like a parameter
    out += sw("lookalike", Body("S", "tuple", [Fld(None, TNOT)], Disp([Ph(0)])), generics="<T: Copy>", params="<T>", pre="pub type T0 = i32;") if False else []
    # assoc types
    gt = dict(generics="<T: Tr>", params="<T>")
    for t in (TA, QTA, GTA):
        out += sw("assoc/%s" % t.text, Body("S", "named", [Fld("a", t)], Disp([Ph("a")])), where="where <T as Tr>::A: std::fmt::Debug", **gt)
        out += sw("assoc-dbg/%s" % t.text, Body("S", "tuple", [Fld(None, t)], Disp([Ph(0, "?"), Ph(0, "x")])), generics="<T>", params="<T>", where="where T: Tr, <T as Tr>::A: std::fmt::Debug")
    # derive(Debug) needs T::A: Debug itself
    return [w for w in out if w]


def fam_generic_headers():
    """Every form of generic parameter list reaches every generated impl."""
    out = []
    A = Fld("a", T)
    LT = lambda s, **k: Ty(s, **k)
    headers = [
        ("<T: std::fmt::Display>", "<T>", "", [Fld("a", T)]),
        ("<T>", "<T>", "where T: std::fmt::Display", [Fld("a", T)]),
        ("<T>", "<T>", "where T: std::fmt::Display,", [Fld("a", T)]),
        ("<T>", "<T>", "where T: std::fmt::Debug + Clone, Vec<T>: Clone", [Fld("a", T)]),
        ("<T: Clone>", "<T>", "where T: Copy,", [Fld("a", T)]),
        ("<T = i32>", "<T>", "", [Fld("a", T)]),
        ("<T: Clone = i32>", "<T>", "", [Fld("a", T)]),
        ("<T, U = String>", "<T, U>", "", [Fld("a", T), Fld("b", U)]),
        ("<'a, T>", "<'a, T>", "", [Fld("a", T), Fld("b", LT("&'a str"))]),
        ("<'a, T: 'a>", "<'a, T>", "", [Fld("a", T), Fld("b", LT("&'a i32", traits="d?x"))]),
        ("<'a, 'b: 'a, T>", "<'a, 'b, T>", "where T: 'b", [Fld("a", T), Fld("b", LT("&'a &'b str"))]),
        ("<const N: usize, T>", "<N, T>", "", [Fld("a", T), Fld("b", LT("[u8; N]", traits="?"))]),
        ("<T, const N: usize>", "<T, N>", "", [Fld("a", T), Fld("b", LT("[u8; N]", traits="?"))]),
        ("<T, const N: usize = 4>", "<T, N>", "", [Fld("a", T), Fld("b", LT("[u8; N]", traits="?"))]),
        ("<T, const N: usize, const B: bool>", "<T, N, B>", "", [Fld("a", T), Fld("b", LT("[u8; N]", traits="?"))]),
        ("<T: ?Sized>", "<T>", "", [Fld("a", BOXT)]),
        ("<T>", "<T>", "where T: ?Sized", [Fld("a", BOXT)]),
        ("<T: Tr>", "<T>", "", [Fld("a", T)]),
        ("<T: Tr<A = i32>>", "<T>", "", [Fld("a", T)]),
        ("<T>", "<T>", "where T: Tr, T::A: Clone, <T as Tr>::B: Copy", [Fld("a", T)]),
        ("<T>", "<T>", "where T: Tr<A = U8A>, for<'x> &'x T: Clone", [Fld("a", T)]),
        ("<T: for<'x> Fn(&'x i32) -> i32>", "<T>", "", [Fld("a", T)]),
        ("<T: std::error::Error>", "<T>", "", [Fld("a", T)]),
        ("<T: std::error::Error + Send + Sync + 'static>", "<T>", "", [Fld("a", T)]),
        ("<T, U, V>", "<T, U, V>", "where V: Clone", [Fld("a", T), Fld("b", U), Fld("c", Ty("PhantomData<V>", gen=True, traits="?"))]),
        ("<r#T>", "<r#T>", "", [Fld("a", Ty("r#T", gen=True, traits="d?"))]) if False else ("<Tt>", "<Tt>", "", [Fld("a", Ty("Tt", gen=True, traits="d?"))]),
    ]
    nog = [
        ("<'a>", "<'a>", "", [Fld("a", LT("&'a str"))]),
        ("<'a>", "<'a>", "where 'a: 'static", [Fld("a", LT("&'a str"))]),
        ("<'a, 'b>", "<'a, 'b>", "where 'a: 'b", [Fld("a", LT("&'a str")), Fld("b", LT("&'b i32", traits="d?x"))]),
        ("<const N: usize>", "<N>", "", [Fld("a", LT("[u8; N]", traits="?"))]),
        ("<const N: usize = 3>", "<N>", "", [Fld("a", LT("[u8; N]", traits="?"))]),
        ("<const C: char>", "<C>", "", [Fld("a", I32)]),
        ("<'a, const N: usize>", "<'a, N>", "", [Fld("a", LT("&'a [u8; N]", traits="?"))]),
        ("<const N: usize>", "<N>", "where [u8; N]: Default", [Fld("a", LT("[u8; N]", traits="?"))]),
        ("", "", "where i32: Copy", [Fld("a", I32)]),
        ("<>", "", "", [Fld("a", I32)]),
    ]
    for i, (g, p, w, fs) in enumerate(headers + nog):
        hp = i < len(headers)
        pre = "pub type U8A = u8;" if "U8A" in w else ""
        kw = dict(generics=g, params=p, where=w, has_type_params=hp, pre=pre)
        spec = lambda f: None if "d" in f.ty.traits else "?"
        for j, m in enumerate((Disp([Ph(f.name, spec(f)) for f in fs]), Disp([Ph(fs[0].name, "?"), Lit(" "), Ph(fs[-1].name, "?")]), Disp([Lit("plain")]))):
            out += sw("header/%d/%d" % (i, j), Body("S", "named", fs, m), **kw)
        # with a source, a backtrace and From
        if not any("'a" in f.ty.text for f in fs) or True:
            ex = [Fld("source", E(0))]
            out += sw("header-src/%d" % i, Body("S", "named", fs + ex, Disp([Ph("source")])), **kw)
            out += sw("header-bt/%d" % i, Body("S", "named", fs + [Fld("bt", BT)], Disp([Ph(fs[0].name, "?")])), **kw)
            ph = Body("V", "tuple", [Fld(None, E(0), ("from",)), Fld(None, BT)], Disp([Ph(0)]))
            ph2 = Body("F", "tuple", [Fld(None, BOX_SS, ("from",))], Transparent())
            out.append(Witness("header-enum/%d" % i, Shape("enum", "S", [Body("X", "named", fs, Disp([Ph(fs[0].name, "?")])), ph, ph2], **kw)))
            fm = Body("X", "named", fs, FmtPath("g::gen%d" % len(fs)))
            gp = "pub mod g { use std::fmt::{Formatter, Result}; pub fn gen1<A: ?Sized>(_: &A, _f: &mut Formatter<'_>) -> Result { Ok(()) } pub fn gen2<A: ?Sized, B: ?Sized>(_: &A, _: &B, _f: &mut Formatter<'_>) -> Result { Ok(()) } pub fn gen3<A: ?Sized, B: ?Sized, C: ?Sized>(_: &A, _: &B, _: &C, _f: &mut Formatter<'_>) -> Result { Ok(()) } }"
            k2 = dict(kw)
            k2["pre"] = gp + pre
            out.append(Witness("header-fmt/%d" % i, Shape("enum", "S", [fm, ph], **k2)))
        out.append(Witness("header-user/%d" % i, Shape("struct", "S", [Body("S", "named", fs, None)], user_display=True, **kw)))
    return out


def fam_generic_random(rng, count):
    out = []
    tys = [T, GT, BOXT, VECT, PHT, NEST, U, GI, I32, PATHBUF, REFI, Ty("G<U>", gen=True, src="ref", traits="d?x"), RESU]
    while len(out) < count:
        bodies = []
        for v in range(rng.randint(1, 4)):
            n = rng.randint(0, 3)
            named = rng.random() < .5
            fs = [Fld("f%d" % i if named else None, rng.choice(tys)) for i in range(n)]
            st = ("named" if named else "tuple") if n else "unit"
            pcs = [Lit("v%d " % v)]
            for _ in range(rng.randint(0, 3)):
                if n:
                    i = rng.randrange(n)
                    ok = [s for s in SPECS if ok_ty(fs[i].ty, s)]
                    if ok:
                        pcs.append(Ph("f%d" % i if named else i, rng.choice(ok)))
            msg = Disp(pcs)
            if n and rng.random() < .4:
                c = [f for f in fs if f.ty.src]
                if c:
                    rng.choice(c).attrs = ("source",)
            elif n == 1 and fs[0].ty.src and rng.random() < .5:
                msg = Transparent()
            bodies.append(Body("V%d" % v, st, fs, msg))
        bodies.append(Body("Z", "tuple", [Fld(None, Ty("PhantomData<(T, U)>", traits="?"))], Disp([Lit("z")])))
        if not all(role_valid(b) for b in bodies):
            continue
        sh = Shape("enum", "S", bodies, generics="<T, U>", params="<T, U>")
        if not sh.has_display:
            continue
        out.append(Witness("genrand/%d/" % len(out) + ";".join("%s(%s)" % (b.name, ",".join("%s:%s:%s" % (f.name or "", "+".join(f.attrs), f.ty.text) for f in b.fields)) + " " + msg_attr(b, b.msg) for b in bodies), sh))
        if len(bodies) == 2 and bodies[0].fields:
            pass
    return out
