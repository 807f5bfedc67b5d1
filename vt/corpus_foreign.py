"""Shapes that carry attributes of other tools and macros, some of them called like thiserror's own."""
import itertools
from .model import *
from .compare import Witness
from .corpus import role_valid, E, I32, BOX_SS, BT, OBT, IO, option, UNIT, M
from .corpus_display import PATHBUF, REFI
from .corpus_functions import pre as fn_pre

TOOLS = ["rustfmt", "clippy", "rust_analyzer", "miri"]
SELF = ["error", "source", "from", "backtrace"]
ITEM = ['{t}::error("no {{x}} {{0}}")', "{t}::error(transparent)", "{t}::error(fmt = nope::nope)", "{t}::error", "{t}::from", "{t}::source", "{t}::backtrace", '{t}::m::error("x")', "{t}::error::x", '{t}::display("x")', "{t}::transparent",
        '{t}::error = "x"', '{t}::error("a", "b")', "cfg_attr(any(), error(\"no\"))", "cfg_attr(all(), rustfmt::error(\"no\"))", 'doc = "error(transparent)"', "doc(alias = \"error\")", "allow(unknown_lints, error)", "diagnostic::error", "rustfmt::skip",
        # derive_more and others have a #[from] with arguments.
        "from(forward)", "from()", 'from = "x"', "from[ignore]"]
FIELD = ["{t}::from", "{t}::source", "{t}::backtrace", "{t}::error", "{t}::from()", "{t}::source = \"x\"", "{t}::m::source", "{t}::from::x", "{t}::backtrace(x)", "cfg_attr(any(), source)", "cfg_attr(any(), from)", "cfg_attr(any(), backtrace)",
         "cfg_attr(all(), rustfmt::source)", 'doc = "#[source]"', "allow(unknown_lints, source, from, backtrace)", "rustfmt::skip", "doc(hidden)",
         "from(forward)", "from(ignore)", "from(u8, u16)", "from()", 'from = "x"', "from = 1", "from{skip}", "from[ignore]"]


def fam_foreign():
    out = []
    msg = lambda named: Disp([Lit("m "), Ph("n" if named else 0)])
    bases = []
    for named in (True, False):
        nm = lambda s: s if named else None
        st = "named" if named else "tuple"
        for roles in ([("e", E(0), ())], [("source", E(0), ())], [("e", E(1), ("source",))], [("e", E(1), ("from",))], [("e", E(1), ("source",)), ("x", E(2), ())], [("x", E(2), ()), ("e", E(1), ("from",)), ("b", BT, ("backtrace",))],
                      [("x", BT, ())], [("x", OBT, ("backtrace",)), ("y", PATHBUF, ())], [("e", option(E(0)), ("source", "backtrace")), ("x", I32, ())]):
            fs = [("n", I32, ())] + roles if not any("from" in a for _, _, a in roles) else roles
            bases.append((st, [(nm(a), t, at) for a, t, at in fs]))
    for (bi, (st, fs)), kind in itertools.product(enumerate(bases), ("struct", "variant", "level")):
        named = st == "named"
        has_n = len(fs) > 1 and fs[0][1] is I32
        m = Disp([Lit("m "), Ph("n" if named else 0)]) if has_n else Disp([Lit("m")])

        def make(fields, own=(), outer=()):
            if kind == "struct":
                b = Body("S", st, fields, m)
                return Shape("struct", "S", [b], attrs=list(own))
            b = Body("V", st, fields, m if kind == "variant" else None, attrs=list(own))
            u = Body("U", "unit", [], m if kind == "variant" and not has_n else Disp([Lit("u")]), attrs=[x.replace("error", "from") for x in own])
            return Shape("enum", "S", [b, u], msg=None if kind == "variant" else m, attrs=list(outer))
        plain = lambda: [Fld(*x) for x in fs]
        if not role_valid(Body("S", st, plain(), m)):
            continue
        for ai, a in enumerate(ITEM):
            t = TOOLS[(ai + bi) % len(TOOLS)]
            a = a.replace("{t}", t).replace("{{", "{").replace("}}", "}")
            out.append(Witness("foreign/item/%d/%s/%s" % (bi, kind, a.replace(" ", "")), make(plain(), (a,), (a,))))
        for ai, a in enumerate(FIELD):
            t = TOOLS[(ai + bi) % len(TOOLS)]
            a = a.replace("{t}", t)
            for i in range(len(fs)):
                f2 = [Fld(*x, extra=(a,) if j == i else ()) for j, x in enumerate(fs)]
                out.append(Witness("foreign/field/%d/%s/%d/%s" % (bi, kind, i, a.replace(" ", "")), make(f2)))
            f3 = [Fld(*x, extra=(a, "doc = \"d\"")) for x in fs]
            out.append(Witness("foreign/fields/%d/%s/%s" % (bi, kind, a.replace(" ", "")), make(f3)))
    # transparent, fmt and user's own Display beside foreign attributes
    for a in ITEM:
        for t in TOOLS[:2]:
            a2 = a.replace("{t}", t).replace("{{", "{").replace("}}", "}")
            k = a2.replace(" ", "")
            out.append(Witness("foreign/transparent/" + k, Shape("struct", "S", [Body("S", "tuple", [Fld(None, E(0), extra=("%s::source" % t,))], Transparent())], attrs=[a2])))
            out.append(Witness("foreign/transparent-v/" + k, Shape("enum", "S", [Body("V", "tuple", [Fld(None, E(0), ("from",), extra=("%s::from" % t,))], Transparent(), attrs=[a2]), Body("W", "unit", [], Disp([Lit("w")]), attrs=[a2])], attrs=[a2])))
            out.append(Witness("foreign/fn/" + k, Shape("enum", "S", [Body("V", "tuple", [Fld(None, I32, extra=("%s::backtrace" % t,))], FmtPath("h::f"), attrs=[a2])], attrs=[a2], pre=fn_pre(1, ["i32"], ""))))
            out.append(Witness("foreign/user/" + k, Shape("enum", "S", [Body("V", "tuple", [Fld(None, E(0), ("source",))], attrs=[a2]), Body("W", "unit", [], attrs=[a2])], attrs=[a2], user_display=True)))
            out.append(Witness("foreign/user-s/" + k, Shape("struct", "S", [Body("S", "named", [Fld("x", E(0), ("source",)), Fld("y", E(1), extra=("%s::from" % t,))])], attrs=[a2], user_display=True)))
    return out
