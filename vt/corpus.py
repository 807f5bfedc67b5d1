"""The shapes the checks analyse: exhaustive small scopes plus seeded samples of larger ones."""
import itertools, random
from .model import *
from .compare import Witness
from .names import near, NEAR, NEARG

# ------------------------------------------------------------------ types
I32 = Ty("i32", traits="d?oxXbeE")
STRING = Ty("String")
UNITY = Ty("()", traits="?")


def E(n):
    return Ty("E%d" % n, src="ref")


BOX = Ty("Box<dyn std::error::Error>", src="deref")
BOX_SEND = Ty("Box<dyn std::error::Error + Send>", src="deref")
BOX_SS = Ty("Box<dyn std::error::Error + Send + Sync>", src="deref")
BOX_SSS = Ty("Box<dyn std::error::Error + Send + Sync + 'static>", src="deref")
BOX_SSU = Ty("Box<dyn std::error::Error + Send + Sync + UnwindSafe>", src="deref")
BOX_E = Ty("Box<E0>", src="ref")
ARC_E = Ty("Arc<E0>", src="ref")
ARC_DYN = Ty("Arc<dyn std::error::Error>", src="ref")
RC_DYN = Ty("Rc<dyn std::error::Error + Send + Sync>", src="deref")
REF_E = Ty("&'static E0", src="ref")
REF_DYN = Ty("&'static (dyn std::error::Error + 'static)", src="ref")
ANYHOW = Ty("anyhow::Error", src="deref", prov="%s.thiserror_provide(%s);")
IO = Ty("std::io::Error", src="ref")
GE = Ty("G<i32>", src="ref")
PATH_E = Ty("self::E0", src="ref")
QPATH_E = Ty("<(E0, i32) as Tr>::A", src="ref")

BT = Ty("Backtrace", bt=True, btlike="own", traits="d?")
BT_PATH = Ty("std::backtrace::Backtrace", bt=True, btlike="own")
BT_GPATH = Ty("::std::backtrace::Backtrace", bt=True, btlike="own")
BT_RAW = Ty("r#Backtrace", bt=False, btlike="own")
OBT = option(Ty("Backtrace", bt=True, btlike="own"), )
OBT_PATH = option(Ty("Backtrace", bt=True, btlike="own"), "std::option::Option<{}>")
ARC_BT = Ty("Arc<Backtrace>", btlike="deref")
BOX_BT = Ty("Box<Backtrace>", btlike="deref")
OARC_BT = option(ARC_BT)
ALIAS_BT = Ty("AliasBt", btlike="own")

SRC = [E(0), BOX, BOX_SEND, BOX_SS, BOX_SSS, BOX_SSU, BOX_E, ARC_E, ARC_DYN, RC_DYN, REF_E, REF_DYN, ANYHOW, IO, GE, PATH_E]
OSRC = [option(t) for t in SRC] + [option(E(0), "std::option::Option<{}>"), option(E(0), "core::option::Option<{}>"),
                                     option(E(0), "::core::option::Option<{}>"), option(BOX_SS, "::std::option::Option<{}>")]
# Types that merely look like one of the recognised ones.
PLAIN = [I32, STRING, option(I32), option(STRING), Ty("Vec<E0>", traits="?"), Ty("(E0, E1)", traits="?"), Ty("Backtraces"),
         Ty("Optional"), Ty("Result<E0, E1>", traits="?"), Ty("Vec<Backtrace>", traits="?"), Ty("[i32; 3]", traits="?"), Ty("fn() -> i32", traits="?")]

ATTRS = [(), ("source",), ("from",), ("backtrace",), ("source", "backtrace"), ("from", "backtrace"), ("from", "source"),
         ("source", "from", "backtrace"), ("backtrace", "from")]


def err_ty(t):
    return (t.inner or t).src is not None


def bt_ty(t):
    x = t.inner or t
    return x.btlike is not None


def role_valid(b):
    """Whether this body is one that must be accepted: the documented rules plus type correctness of the roles."""
    fs = b.fields
    for a in ("from", "source", "backtrace"):
        if sum(f.has(a) for f in fs) > 1:
            return False
    fr = b.from_field()
    sr = next((i for i, f in enumerate(fs) if f.has("source")), None)
    bt = next((i for i, f in enumerate(fs) if f.has("backtrace")), None)
    if fr is not None and sr is not None and fr != sr:
        return False
    if fr is not None:
        if bt is not None:
            mx = 1 + (bt != fr)
        else:
            mx = 1 + any(f.ty.bt for f in fs)
        if len(fs) > mx:
            return False
        if mx == 2 and len(fs) < 1:
            return False
    if isinstance(b.eff, Transparent):
        if len(fs) != 1 or sr is not None:
            return False
        if not (fs[0].ty.src is not None and not fs[0].ty.opt):
            return False
    s = b.provide_source()
    if s is not None and not err_ty(fs[s].ty):
        return False
    k = b.backtrace_field()
    if k is not None and k != s:
        if not bt_ty(fs[k].ty):
            return False
    if k is not None and k == s and not fs[k].has("backtrace"):
        return False
    if fr is not None and k is not None and k != fr:
        t = fs[k].ty
        if t.opt and t.inner.btlike != "own":
            return False
    if any(f.has("from") or f.has("source") for f in fs) and any("&'a" in f.ty.text for f in fs):
        return False
    return True


def struct_of(b, **kw):
    return Shape("struct", "S", [b], **kw)


M = lambda: Disp([Lit("msg")])


def as_struct(fields, style, msg=None, **kw):
    return Shape("struct", "S", [Body("S", style, fields, msg or M())], **kw)


def as_variant(fields, style, msg=None, before=(), after=(), **kw):
    b = Body("V", style, fields, msg or M())
    return Shape("enum", "S", list(before) + [b] + list(after), **kw)


UNIT = lambda n="U": Body(n, "unit", [], M())


def both(key, fields, style, msg=None, tags=(), **kw):
    """The same fields as a struct and as an enum variant."""
    out = []
    b = Body("S", style, fields, msg or M())
    if not role_valid(b):
        return out
    out.append(Witness(key + "/struct", as_struct(fields, style, msg, **kw), tags))
    out.append(Witness(key + "/variant", as_variant(fields, style, msg, after=[UNIT()], **kw), tags))
    return out


def fam_one_field():
    """Every attribute combination on a single field, for every type and field name of interest."""
    out = []
    types = SRC + OSRC + [BT, BT_PATH, BT_GPATH, OBT, OBT_PATH, ARC_BT, BOX_BT, OARC_BT] + PLAIN
    for name in (None, "source", "r#source", "inner", "backtrace", "cause", "Source", "source_", "r#type"):
        for at in ATTRS:
            for t in types:
                if name in ("Source", "source_", "cause", "r#type") and (at not in ((), ("source",)) or t is not types[0]):
                    continue
                if at == () and name not in ("source", "r#source") and t.src is not None and t is not types[0]:
                    continue
                out += both("one/%s/%s/%s" % (name or "0", "+".join(at) or "-", t.text), [Fld(name, t, at)],
                            "tuple" if name is None else "named")
    return out


TYPES2 = [E(0), option(E(1)), BOX_SS, BT, OBT, ARC_BT, I32, option(I32)]
NAMES2 = [(None, None), ("a", "b"), ("source", "b"), ("a", "source"), ("backtrace", "source"), ("source", "backtrace"), ("source", "r#fn")]


def fam_two_fields(limit=None, rng=None):
    out = []
    for names in NAMES2:
        for a0, a1 in itertools.product(ATTRS[:7], ATTRS[:7]):
            for t0, t1 in itertools.product(TYPES2, TYPES2):
                fs = [Fld(names[0], t0, a0), Fld(names[1], t1, a1)]
                style = "tuple" if names[0] is None else "named"
                if not role_valid(Body("S", style, fs, M())):
                    continue
                out.append((names, a0, a1, t0, t1, style, fs))
    if limit and len(out) > limit:
        out = rng.sample(out, limit)
    ws = []
    for names, a0, a1, t0, t1, style, fs in out:
        ws += both("two/%s,%s/%s,%s/%s,%s" % (names[0], names[1], "+".join(a0) or "-", "+".join(a1) or "-", t0.text, t1.text), fs, style)
    return ws


def fam_many_fields(rng, count, lo=3, hi=6):
    """Larger bodies: positions of the roles among other fields."""
    out = []
    tries = 0
    types = SRC + OSRC + [BT, OBT, ARC_BT, OARC_BT, BT_PATH] + PLAIN
    while len(out) < count and tries < count * 400:
        tries += 1
        n = rng.randint(lo, hi)
        named = rng.random() < 0.5
        names = [None] * n
        if named:
            pool = ["a", "b", "c", "d", "source", "backtrace", "r#match", "cause", "inner", "msg", "request", "source_", "Backtrace", "from", "error"]
            names = rng.sample(pool, n)
        fs = [Fld(names[i], rng.choice(PLAIN), ()) for i in range(n)]
        idx = list(range(n))
        rng.shuffle(idx)
        kind = rng.choice(["none", "src", "bt", "src+bt", "src=bt", "src+xbt"])
        if "src" in kind:
            i = idx.pop()
            fs[i].ty = rng.choice(SRC + OSRC)
            fs[i].attrs = ("source",)
            if kind == "src=bt":
                fs[i].attrs = ("source", "backtrace")
        if kind in ("bt", "src+bt", "src+xbt"):
            i = idx.pop()
            if kind == "src+xbt":
                fs[i].ty = rng.choice([BT, OBT, ARC_BT, OARC_BT])
                fs[i].attrs = ("backtrace",)
            elif rng.random() < 0.5:
                fs[i].ty = rng.choice([BT, BT_PATH])
            else:
                fs[i].ty = rng.choice([BT, OBT, ARC_BT, OARC_BT])
                fs[i].attrs = ("backtrace",)
        for f in fs:
            if f.name == "source" and not err_ty(f.ty) and not any(g.has("source") or g.has("from") for g in fs):
                f.ty = rng.choice(SRC)
        if not role_valid(Body("S", "named" if named else "tuple", fs, M())):
            continue
        key = "many/" + ",".join("%s:%s:%s" % (f.name or i, "+".join(f.attrs), f.ty.text) for i, f in enumerate(fs))
        out += both(key, fs, "named" if named else "tuple")
    return out


def rand_body(rng, name, froms):
    """A random valid variant; `froms` is the set of From types still free."""
    for _ in range(200):
        k = rng.choice(["unit", "plain", "named_src", "from", "from_bt", "src_bt", "transparent", "bt", "trans_from", "both", "xbt"])
        plain = [Fld(None, rng.choice(PLAIN)) for _ in range(rng.randint(0, 2))]
        named = rng.random() < 0.5
        nm = lambda i, pref: (pref if named else None)
        fs, msg = [], M()
        if k == "unit":
            return Body(name, "unit", [], M())
        if k == "plain":
            fs = [Fld("x%d" % i if named else None, f.ty) for i, f in enumerate(plain + [Fld(None, I32)])]
        elif k == "named_src":
            named = True
            fs = [Fld("x%d" % i, f.ty) for i, f in enumerate(plain)]
            fs.insert(rng.randint(0, len(fs)), Fld("source", rng.choice(SRC + OSRC)))
        elif k in ("from", "from_bt", "trans_from"):
            if not froms:
                continue
            t = froms.pop()
            if k == "trans_from" and not t.opt:
                msg = Transparent()
            fs = [Fld(nm(0, "e"), t, ("from",))]
            if k == "from_bt":
                b = rng.choice([Fld(nm(0, "bt"), BT), Fld(nm(0, "bt"), OBT, ("backtrace",)), Fld(nm(0, "bt"), ARC_BT, ("backtrace",)), Fld(nm(0, "bt"), BT, ("backtrace",))])
                fs.insert(rng.randint(0, 1), b)
            elif rng.random() < 0.4:
                fs[0].attrs = ("from", "backtrace")
        elif k == "src_bt":
            fs = [Fld(nm(0, "s"), rng.choice(SRC + OSRC), ("source",)), Fld(nm(0, "b"), rng.choice([BT, BT_PATH]))]
            rng.shuffle(fs)
        elif k == "both":
            fs = [Fld(nm(0, "s"), rng.choice(SRC + OSRC), ("source", "backtrace"))]
            fs += [Fld("x%d" % i if named else None, f.ty) for i, f in enumerate(plain)]
            rng.shuffle(fs)
        elif k == "xbt":
            fs = [Fld(nm(0, "s"), rng.choice(SRC + OSRC), ("source",)), Fld(nm(0, "b"), rng.choice([OBT, ARC_BT, OARC_BT, BT]), ("backtrace",))]
            rng.shuffle(fs)
        elif k == "transparent":
            msg = Transparent()
            fs = [Fld(nm(0, "t"), rng.choice(SRC))]
        elif k == "bt":
            fs = [Fld(nm(0, "b"), rng.choice([BT, OBT]), ("backtrace",))] + [Fld("x%d" % i if named else None, f.ty) for i, f in enumerate(plain)]
            rng.shuffle(fs)
        b = Body(name, "named" if named else "tuple", fs, msg)
        if role_valid(b):
            return b
    return Body(name, "unit", [], M())


def fam_enums(rng, count, lo=2, hi=6):
    out = []
    for k in range(count):
        froms = [E(i) for i in range(10)] + [BOX_SS, IO, option(REF_E), option(GE)]
        rng.shuffle(froms)
        n = rng.randint(lo, hi)
        bodies = [rand_body(rng, "V%d" % i, froms) for i in range(n)]
        ud = False
        sh = Shape("enum", "S", bodies)
        if not sh.has_display:
            sh = Shape("enum", "S", bodies, user_display=True)
        out.append(Witness("enum/%d/" % k + ";".join("%s(%s%s)" % (b.name, "T!" if isinstance(b.msg, Transparent) else "", ",".join("%s:%s:%s" % (f.name or "", "+".join(f.attrs), f.ty.text) for f in b.fields)) for b in bodies), sh))
    return out


def fam_transparent():
    out = []
    for t in SRC:
        for name in (None, "inner", "source", "r#source", "backtrace"):
            for at in ((), ("from",), ("from", "backtrace")):
                st = "tuple" if name is None else "named"
                fs = [Fld(name, t, at)]
                if name == "backtrace" and t is not SRC[0]:
                    continue
                for w in both("transparent/%s/%s/%s" % (name or "0", "+".join(at) or "-", t.text), fs, st, Transparent()):
                    out.append(w)
                b = Body("V", st, fs, None)
                b.eff = Transparent()
                if role_valid(b):
                    out.append(Witness("transparent-enum-level/%s/%s/%s" % (name or "0", "+".join(at) or "-", t.text),
                                       Shape("enum", "S", [Body("V", st, fs, None), UNIT()], msg=Transparent())))
    return out


def fam_user_display():
    """No message at all: no Display impl may be generated, everything else still is."""
    out = []
    for t, at in ((E(0), ("from",)), (option(E(0)), ("source",)), (BT, ()), (I32, ())):
        for name in (None, "source" if t.src or t.opt else "x"):
            st = "tuple" if name is None else "named"
            fs = [Fld(name, t, at)]
            out.append(Witness("userdisplay/struct/%s/%s" % (name, t.text), Shape("struct", "S", [Body("S", st, fs, None)], user_display=True)))
            out.append(Witness("userdisplay/enum/%s/%s" % (name, t.text), Shape("enum", "S", [Body("A", st, fs, None), Body("B", "unit", [], None)], user_display=True)))
    out.append(Witness("userdisplay/unit", Shape("struct", "S", [Body("S", "unit", [], None)], user_display=True)))
    out.append(Witness("userdisplay/some-transparent", Shape("enum", "S", [Body("A", "tuple", [Fld(None, E(0), ("from",))], Transparent()), Body("B", "unit", [], None)], user_display=True)))
    return out


def fam_empty():
    return [
        Witness("empty/plain", Shape("enum", "S", [])),
        Witness("empty/msg", Shape("enum", "S", [], msg=M())),
        Witness("empty/transparent", Shape("enum", "S", [], msg=Transparent())),
        Witness("empty/struct-unit", Shape("struct", "S", [Body("S", "unit", [], M())])),
        Witness("empty/struct-named", Shape("struct", "S", [Body("S", "named", [], M())])),
        Witness("empty/struct-tuple", Shape("struct", "S", [Body("S", "tuple", [], M())])),
        Witness("empty/variants", Shape("enum", "S", [Body("A", "unit", [], M()), Body("B", "named", [], M()), Body("C", "tuple", [], M())])),
    ]


def fam_spellings():
    """Names that are almost the recognised ones, and the recognised ones through paths of every length."""
    out = []

    def few(key, t, inner="", at2=ATTRS):
        for nm in (None, "f", "source"):
            st = "tuple" if nm is None else "named"
            for at in at2:
                for w in both("spell/%s/%s/%s" % (key, nm or 0, "+".join(at) or "-"), [Fld(nm, t, at)], st):
                    w.shape.inner = inner
                    out.append(w)
            for o, oat, at in ((E(2), ("source",), ()), (E(2), ("from",), ()), (E(2), ("from",), ("backtrace",)), (BT, ("backtrace",), ("from",)), (BT, (), ("source",)), (OBT, ("backtrace",), ("from",))):
                if nm == "source" and oat and "backtrace" not in oat:
                    continue
                for flip in (False, True):
                    fs = [Fld(nm, t, at), Fld(nm and "g", o, oat)]
                    if flip:
                        fs.reverse()
                    for w in both("spell/%s/%s/two/%s.%s/%s/%s" % (key, nm or 0, o.text, "+".join(oat), "+".join(at), flip), fs, st):
                        w.shape.inner = inner
                        out.append(w)
            if not t.opt and (not t.btlike) and nm != "source":
                for w in both("spell/%s/%s/show" % (key, nm or 0), [Fld(nm, t)], st, Disp([Ph(nm or 0), Lit(" "), Ph(nm or 0, "?")])):
                    w.shape.inner = inner
                    out.append(w)
    for x in NEAR:
        few("near/lk::n::" + x, Ty("lk::n::" + x, src="ref"), at2=ATTRS[:5])
        if not x.strip("_")[0].isupper():
            continue            # a tuple struct in scope with the name of some generated binding (a limit: DESIGN.md)
        few("near/" + x, Ty(x, src="ref"), "use super::super::sup::lk::n::%s;" % x, at2=ATTRS[:3])
    for x in NEARG:
        few("nearg/" + x, Ty("lk::g::%s<E0>" % x, src="ref"), at2=ATTRS[:5])
    for p in ["lk::q::" + "".join("q%d::" % i for i in range(d)) for d in range(9)] + ["self::", "super::super::sup::", "self::super::super::sup::", "crate::sup::", "crate::sup::lk::q::q0::", "self::lk::q::"]:
        few("path/%s/e" % p, Ty(p + "E0", src="ref"), at2=ATTRS[:5])
        few("path/%s/g" % p, Ty(p + "G<i32>", src="ref"), at2=ATTRS[:5])
        few("path/%s/bt" % p, Ty(p + "Backtrace", bt=True, btlike="own"))
        few("path/%s/oe" % p, option(E(0), p + "Option<{}>"))
        few("path/%s/oep" % p, option(Ty(p + "E0", src="ref"), p + "Option<{}>"))
        few("path/%s/obox" % p, option(BOX_SS, p + "Option<{}>"))
        few("path/%s/obt" % p, option(Ty("Backtrace", bt=True, btlike="own"), p + "Option<{}>"))
        few("path/%s/obtp" % p, option(Ty(p + "Backtrace", bt=True, btlike="own"), p + "Option<{}>"))
        few("path/%s/abt" % p, Ty(p + "Arc<%sBacktrace>" % p, btlike="deref"))
    for m in ("Backtrace", "Option", "Box", "Error", "source", "PathBuf", "T", "std", "core", "option"):
        p = "lk::m::%s::" % m
        inner = "" if m in ("std", "core") else "use super::super::sup::lk::m::%s;" % m
        for p, inner in ((p, ""), (m + "::", "use super::super::sup::lk::m::%s as %s;" % (m, m)))[:1 if m in ("std", "core", "Backtrace", "Option", "Box", "Error", "PathBuf") else 2]:
            few("mod/%s/e" % p, Ty(p + "E0", src="ref"), inner, at2=ATTRS[:5])
            few("mod/%s/g" % p, Ty(p + "G<i32>", src="ref"), inner, at2=ATTRS[:5])
            few("mod/%s/bt" % p, Ty(p + "Backtrace", bt=True, btlike="own"), inner)
            few("mod/%s/oe" % p, option(E(0), p + "Option<{}>"), inner)
    for x in near("source") + ["cause", "error", "inner", "err"]:
        for t in (E(0), option(E(0)), BOX_SS):
            for at in ((), ("backtrace",)):
                for w in both("spell/field/%s/%s/%s" % (x, t.text, "+".join(at)), [Fld(x, t, at)], "named"):
                    out.append(w)
            out.extend(both("spell/field/%s/%s/bt" % (x, t.text), [Fld(x, t), Fld("b", BT)], "named"))
            out.extend(both("spell/field/%s/%s/and" % (x, t.text), [Fld(x, t), Fld("source", E(1))], "named"))
    for x in near("backtrace"):
        out.extend(both("spell/field/%s" % x, [Fld(x, E(0))], "named"))
        out.extend(both("spell/field/%s/and" % x, [Fld(x, E(0)), Fld("source", E(1)), Fld("b", BT)], "named"))
    return out


# Types that share a name with the recognised ones, and the recognised ones under other names.
LK_BT = Ty("lk::Backtrace<i32>", src="ref")
LK_BT2 = Ty("super::super::sup::lk::Backtrace<E0>", src="ref")
LK_OA = Ty("lk::a::Option", src="ref")
LK_OB = Ty("lk::b::Option<E0, E1>", src="ref")
LK_OC = Ty("lk::c::Option<'static>", src="ref")
LK_OD = Ty("lk::d::Option<3>", src="ref")
LK_X = Ty("lk::x::Box<E0>", src="ref")
LK_P = [Ty("lk::p::PathBuf", src="ref"), Ty("lk::p::Path", src="ref")]
LK_Z = Ty("lk::z::Backtrace", bt=True, btlike="own", traits="d?")
LK_T = Ty("lk::Trace", btlike="own", traits="d?")
LOOK = [LK_BT, LK_BT2, LK_OA, LK_OB, LK_OC, LK_OD, LK_X, LK_Z, LK_T] + LK_P


def fam_lookalikes():
    out = []

    def st(fs):
        return "tuple" if fs[0].name is None else "named"
    for t in LOOK + [option(x) for x in LOOK]:
        for named in (False, True):
            n = lambda x: x if named else None
            for at in ATTRS:
                for nm in (("f", "source", "backtrace") if named else (None,)):
                    for m in (None, Transparent(), Disp([Ph(0 if nm is None else nm, "?")])):
                        out += both("look/one/%s/%s/%s/%s" % (t.text, nm, "+".join(at), type(m).__name__), [Fld(nm, t, at)], st([Fld(nm, t)]), m)
                if not t.opt and t.btlike is None or t is LK_Z or t is LK_T:
                    out += both("look/show/%s/%s/%s" % (t.text, named, "+".join(at)), [Fld(n("f"), t, at)], st([Fld(n("f"), t)]), Disp([Ph("f" if named else 0), Lit(" "), Ph("f" if named else 0, "?")]))
            for o, oat in ((E(2), ("source",)), (E(2), ("from",)), (option(E(2)), ("source",)), (BOX_SS, ("source",)), (BT, ()), (OBT, ("backtrace",)), (ARC_BT, ("backtrace",)), (I32, ()), (E(3), ("source", "backtrace")), (E(3), ("from", "backtrace"))):
                for at in ATTRS[:5]:
                    for flip in (False, True):
                        fs = [Fld(n("f"), t, at), Fld(n("g"), o, oat)]
                        if flip:
                            fs.reverse()
                        out += both("look/two/%s/%s/%s/%s.%s/%s" % (t.text, named, "+".join(at), o.text, "+".join(oat), flip), fs, st(fs))
        if not t.opt and not t.btlike:
            # by the side of a source found by its name
            out += both("look/named/%s" % t.text, [Fld("f", t), Fld("source", E(4))], "named")
            out += both("look/named-bt/%s" % t.text, [Fld("f", t), Fld("source", E(4)), Fld("b", BT)], "named")
            out += both("look/three/%s" % t.text, [Fld("f", t), Fld("s", option(E(4)), ("source",)), Fld("b", OBT, ("backtrace",))], "named")
    return out
