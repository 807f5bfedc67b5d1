"""Everything at once: random bodies mixing roles, messages, generics and attributes; and inputs built from the constants
that occur in the analysed source, so that a special case keyed on a name, a length or a count meets an input that has it."""
import os, random, re
from . import build
from .model import *
from .compare import Witness
from .corpus import *
from .corpus import role_valid, err_ty
from . import corpus_display as cd
from .corpus_display import SPECS, ok_ty, LITS, FIELD_NAMES, PATHBUF, PATHREF, PATHBOX, REFI, BOXI, STR, U8, F64, BOOL, VEC
from .corpus_generics import T, GT, BOXT, VECT, PHT, NEST, U, ARCT


def disp_ty(t, traits):
    n = Ty(t.text, src=t.src, inner=t.inner, bt=t.bt, btlike=t.btlike, disp=t.disp, gen=t.gen, traits=traits, ref=t.ref, lifetime=t.lifetime, pre=t.pre, prov=t.prov)
    return n


X_SRC = [disp_ty(t, "d?p" if t.text.startswith(("Box", "Arc", "Rc", "&")) else "d?") for t in SRC]
X_OSRC = [disp_ty(t, "?") for t in OSRC]
X_PLAIN = [I32, U8, F64, BOOL, STRING, STR, REFI, BOXI, PATHBUF, PATHREF, PATHBOX, VEC, option(I32), option(STRING), Ty("Vec<E0>", traits="?"), Ty("(E0, E1)", traits="?"),
           Ty("Optional", traits="d?"), Ty("Result<E0, E1>", traits="?"), Ty("E3", src="ref", traits="d?"), option(Ty("E4", src="ref", traits="d?")), Ty("Box<E5>", src="ref", traits="d?p")]
X_BT = [disp_ty(t, "d?") for t in (BT, BT_PATH)]
X_BTA = [disp_ty(BT, "d?"), disp_ty(OBT, "?"), disp_ty(ARC_BT, "?p"), disp_ty(OARC_BT, "?")]
ROLE_NAMES = ["source", "backtrace", "cause", "inner", "error", "err", "from", "request", "transparent", "r#source", "source_", "kind", "e", "this", "that"]
CONT_ATTRS = ["repr(C)", "non_exhaustive", "must_use", "doc = \"text {x}\"", "allow(dead_code)", "cfg_attr(any(), error(\"no\"))", "cfg(all())"]
FIELD_ATTRS = ["doc = \" {0} source\"", "allow(unused)", "cfg(all())", "cfg_attr(any(), source)"]

HEADERS = [("", "", "", False)] * 8 + [
    ("<T>", "<T>", "", True), ("<T: std::fmt::Debug>", "<T>", "", True), ("<T, U>", "<T, U>", "where U: Clone", True), ("<'a, T>", "<'a, T>", "", True),
    ("<T, const N: usize>", "<T, N>", "where T: 'static", True), ("<const N: usize>", "<N>", "", False), ("<'a>", "<'a>", "", False), ("<T: Tr>", "<T>", "where T::A: Clone,", True),
    ("<'a, 'b, T: 'a, U = i32, const N: usize = 2>", "<'a, 'b, T, U, N>", "where 'b: 'a, [u8; N]: Clone", True)]


def must_use(params):
    """Fields that mention every parameter."""
    out = []
    for p in [x.strip() for x in params.strip("<>").split(",") if x.strip()]:
        if p.startswith("'"):
            out.append(Ty("&%s str" % p, traits="d?"))
        elif p == "N":
            out.append(Ty("[u8; N]", traits="?"))
        else:
            out.append(Ty("PhantomData<%s>" % p, gen=True, traits="?"))
    return out


def rbody(rng, name, pool, froms, gens, want_display, sizes=(0, 1, 1, 2, 2, 3, 4, 5)):
    """A random valid body, or None."""
    kind = rng.choice(["plain", "plain", "src", "src", "named-src", "bt", "src+bt", "src=bt", "src+xbt", "from", "from", "from+bt", "from=bt", "transparent", "fmt"])
    n = rng.choice(sizes)
    role = lambda t: t
    srcs, osrcs = list(X_SRC), list(X_OSRC)
    plain = list(X_PLAIN)
    if "T" in gens:
        srcs += [T, GT, BOXT, NEST] * 2
        osrcs += [option(T), option(GT)]
        plain += [T, GT, VECT, PHT, BOXT, option(T)] * 2
    if "U" in gens:
        plain += [U]
    plain = [t for t in plain if t.gen is False or True]
    roles = []
    msg = None
    if kind in ("src", "src+bt", "src=bt", "src+xbt"):
        roles.append((rng.choice(srcs + osrcs), ("source", "backtrace") if kind == "src=bt" else ("source",), None))
        if kind == "src=bt" and rng.random() < .5:
            roles[0] = (roles[0][0], ("backtrace", "source"), None)
    if kind == "named-src":
        roles.append((rng.choice(srcs + osrcs), rng.choice([(), (), ("source",), ("backtrace",)]), "source"))
    if kind in ("bt", "src+bt", "from+bt"):
        if rng.random() < .5 or kind == "src+bt":
            roles.append((rng.choice(X_BT), rng.choice([(), ("backtrace",)]) if kind != "src+bt" else (), None))
        else:
            roles.append((rng.choice(X_BTA), ("backtrace",), None))
    if kind == "src+xbt":
        roles.append((rng.choice(X_BTA), ("backtrace",), None))
    if kind.startswith("from"):
        if not froms:
            return None
        t = froms.pop()
        at = {"from": ("from",), "from+bt": ("from",), "from=bt": ("from", "backtrace")}[kind]
        if rng.random() < .25:
            at = tuple(rng.sample(at + ("source",), len(at) + 1))
        roles.insert(0, (t, at, None))
        n = 0
    if kind == "transparent":
        at = ()
        t = rng.choice(srcs)
        if froms and rng.random() < .5:
            f = froms.pop()
            if not f.opt:
                t, at = f, rng.choice([("from",), ("from", "backtrace"), ("backtrace", "from")])
        roles = [(t, at, rng.choice([None, None, "source", "inner"]))]
        n = 0
        msg = Transparent()
    fs = [Fld(None, rng.choice(plain), ()) for _ in range(n)]
    named = rng.random() < .5 or any(r[2] for r in roles)
    fixed = [r[2] for r in roles if r[2]]
    for t, at, nm in roles:
        fs.insert(rng.randint(0, len(fs)), Fld(nm, t, at))
    if named:
        names = rng.sample([x for x in pool if x not in fixed], len(fs))
        for f, nm in zip(fs, names):
            if f.name is None:
                f.name = nm
        if len({unraw(f.name) for f in fs}) < len(fs):
            return None
    style = ("named" if named else "tuple") if fs or rng.random() < .5 else "unit"
    b = Body(name, style, fs, None)
    if kind == "fmt" and want_display == "enum":
        msg = FmtPath("ff_%s" % name.lower())
    if msg is None and want_display:
        msg = rmsg(rng, b)
        if msg is None:
            return None
    b.msg = b.eff = msg
    for f in fs:
        if rng.random() < .12:
            f.extra = (rng.choice(FIELD_ATTRS),)
    if not role_valid(b):
        return None
    k = b.backtrace_field()
    return b


BAD_NAMES = {"_"}


def rmsg(rng, b):
    pcs, args, used = [], [], set()
    n = len(b.fields)
    named = b.style == "named"
    for _ in range(rng.randint(0, 5)):
        k = rng.random()
        if k < .35:
            pcs.append(Lit(rng.choice(LITS[1:])))
        elif k < .85 and n:
            i = rng.randrange(n)
            f = b.fields[i]
            if named and unraw(f.name) in used:
                continue
            ok = [s for s in SPECS if ok_ty(f.ty, s)]
            if not ok:
                continue
            sp = rng.choice(ok)
            if rng.random() < .4 and ok_ty(f.ty, None):
                sp = None
            pcs.append(Ph(unraw(f.name) if named else i, sp))
        elif k < .93:
            nm = rng.choice(["extra", "zed", "__field_a", "__display_b", "__display0", "source_text", "r#for", "a", "b", "kind"])
            if unraw(nm) in used or any(isinstance(p, Ph) and p.arg == unraw(nm) for p in pcs):
                continue
            used.add(unraw(nm))
            if n and rng.random() < .7:
                i = rng.randrange(n)
                e = rng.choice(["<<%d>>", "&<<%d>>", "(<<%d>>)", "id(<<%d>>)", "{ let q = <<%d>>; q }", "[<<%d>>]", "two(1, <<%d>>)", "if true { <<%d>> } else { <<%d>> }"])
                e = e.replace("%d", str(i))
                if b.fields[i].ty.gen or "?" not in b.fields[i].ty.traits:
                    continue
            else:
                e = rng.choice(["1", "K", "LIMIT + 1", "\"s\"", "vec![1]", "1 == 2", "K as u8"])
            args.append(Arg(e, nm))
            pcs.append(Ph(unraw(nm), "?"))
        elif named or not n:
            e = rng.choice(["1", "K", "LIMIT", "\"s\""])
            if n and rng.random() < .6:
                i = rng.randrange(n)
                if b.fields[i].ty.gen or "?" not in b.fields[i].ty.traits:
                    continue
                e = "<<%d>>" % i
            if any(a.name for a in args):
                continue
            args.append(Arg(e))
            pcs.append(Ph(None, "?"))
    for f in b.fields:
        if f.name is not None and unraw(f.name) in used and False:
            return None
    if not pcs:
        pcs = [Lit("m")]
    return Disp(pcs, args, trailing=bool(args) and rng.random() < .3)


def ff_pre(bodies):
    out = []
    for b in bodies:
        if isinstance(b.msg, FmtPath):
            ts = ["_%d: &TT%d" % (i, i) for i in range(len(b.fields))]
            g = ["TT%d: ?Sized" % i for i in range(len(b.fields))]
            out.append("pub fn %s<%s>(%s_f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }" % (b.msg.path, ", ".join(g), "".join(t + ", " for t in ts)))
    return "\n".join(out)


def rshape(rng, pool, vnames=None, sizes=(0, 1, 1, 2, 2, 3, 4, 5), nvar=(1, 1, 2, 2, 3, 4, 6), name="S"):
    g, p, w, hp = rng.choice(HEADERS)
    gens = set(re.findall(r"\b[TU]\b", p))
    froms = [disp_ty(E(i), "d?") for i in range(10)] + [X_SRC[3], X_SRC[13], disp_ty(option(REF_E), "?"), disp_ty(option(GE), "?")]
    rng.shuffle(froms)
    attrs = rng.sample(CONT_ATTRS, rng.choice([0, 0, 0, 1, 2]))
    need = must_use(p)
    kind = rng.choice(["struct", "enum", "enum"])
    ud = rng.random() < .06
    if kind == "struct":
        if "repr(C)" in attrs and not need:
            attrs.remove("repr(C)")
        b = rbody(rng, name, pool, froms, gens, None if ud else "struct", sizes)
        if b is None:
            return None
        if need:
            if isinstance(b.msg, Transparent) or any("from" in f.attrs for f in b.fields):
                return None
            if b.style == "unit":
                b.style = "tuple"
            for t in need:
                b.fields.append(Fld("zz%d" % len(b.fields) if b.style == "named" else None, t))
        if ud and isinstance(b.msg, Transparent):
            ud = False
        b.name = name
        if not role_valid(b):
            return None
        return Shape("struct", name, [b], g, p, w, has_type_params=hp, attrs=attrs, user_display=ud and b.msg is None, pre="")
    nv = rng.choice(nvar)
    vs = []
    names = rng.sample(vnames, nv) if vnames and len(vnames) >= nv else ["V%d" % i for i in range(nv)]
    level = None
    if not ud and rng.random() < .15:
        level = Disp([Lit(rng.choice(LITS[1:]))]) if rng.random() < .7 else Disp([Lit("e "), Ph("n", "?")], [Arg("K + 1", "n")])
    for i in range(nv):
        b = None
        for _ in range(20):
            b = rbody(rng, names[i], pool, froms, gens, None if ud else "enum", sizes)
            if b is not None and (not ud or not isinstance(b.msg, Transparent)):
                break
            b = None
        if b is None:
            return None
        if level is not None and not isinstance(b.msg, Transparent) and rng.random() < .5:
            b.msg = None
            if not (isinstance(level, Disp) and level.args) or True:
                names_in = [unraw(f.name) for f in b.fields if f.name]
                if level.args and "n" in names_in:
                    return None
        vs.append(b)
    if need:
        b = Body("Zz", "tuple", [Fld(None, t) for t in need], None if ud else Disp([Lit("z")]))
        vs.insert(rng.randint(0, len(vs)), b)
    for b in vs:
        if rng.random() < .1:
            b.attrs = [rng.choice(["doc = \"v {0}\"", "allow(unused)", "cfg(all())"])]
    if "repr(C)" in attrs and not vs:
        attrs.remove("repr(C)")
    pre = ff_pre(vs)
    sh = Shape("enum", name, vs, g, p, w, msg=level, has_type_params=hp, attrs=attrs, pre=pre)
    if not sh.has_display:
        sh = Shape("enum", name, vs, g, p, w, msg=level, has_type_params=hp, attrs=attrs, pre=pre, user_display=True)
    if not all(role_valid(b) for b in vs):
        return None
    return sh


NAMES = [x for x in dict.fromkeys(ROLE_NAMES + FIELD_NAMES) if x not in ("_0", "_1")]


def fam_cross(rng, count, pool=None, vnames=None, prefix="cross", **kw):
    out = []
    pool = pool or NAMES
    tries = 0
    while len(out) < count and tries < 60 * count:
        tries += 1
        sh = rshape(rng, pool, vnames, **kw)
        if sh is None:
            continue
        out.append(Witness("%s/%d/%s" % (prefix, len(out), summary(sh)), sh))
    return out


def summary(sh):
    bs = ";".join("%s%s(%s)" % (b.name, "!" if isinstance(b.msg, Transparent) else "", ",".join("%s:%s:%s" % (f.name or "", "+".join(f.attrs), f.ty.text) for f in b.fields)) for b in sh.bodies)
    return "%s%s %s" % (sh.kind, sh.generics, bs)


# ------------------------------------------------------------------ constants of the analysed source

IDENT = re.compile(r"^[A-Za-z_][A-Za-z0-9_]*$")


def constants():
    """String, char and integer literals of the analysed sources."""
    strs, ints = set(), set()
    for p in build.repo_files():
        if not p.endswith(".rs") or "/build" in p[len(build.REPO):]:
            continue
        t = open(p).read()
        t = re.sub(r"//[^\n]*", "", t)
        for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', t):
            strs.add(m.group(1))
        for m in re.finditer(r"'([^'\\]|\\.)'", t):
            strs.add(m.group(1))
        for m in re.finditer(r"(?<![\w.])(\d+)(?:_?[ui](?:8|16|32|64|size))?\b", t):
            v = int(m.group(1))
            if 2 <= v <= 400:
                ints.add(v)
        for m in re.finditer(r"(?<![\w.])0x([0-9a-fA-F]+)", t):
            v = int(m.group(1), 16)
            if 2 <= v <= 400:
                ints.add(v)
    ids = sorted(s for s in strs if IDENT.match(s) and len(s) < 40)
    # parts of longer strings count, too
    more = set()
    for s in strs:
        for w in re.findall(r"[A-Za-z_][A-Za-z0-9_]*", s):
            if len(s) < 60 and len(w) < 40:
                more.add(w)
    ids = sorted(set(ids) | more)
    texts = sorted(s for s in strs if not IDENT.match(s) and len(s) < 80 and "\\" not in s)
    return ids, texts, sorted(ints)


def field_ident(s):
    if s in NO_RAW or s == "_":
        return None
    return "r#" + s if s in KEYWORDS else s


def fam_harvest_names():
    """Each identifier that occurs in the analysed source, as the name of a field, variant, type, parameter, module and argument."""
    ids, texts, ints = constants()
    out = []
    e0, bt = disp_ty(E(0), "d?"), disp_ty(BT, "d?")
    for s in ids:
        n = field_ident(s)
        if n is None:
            continue
        u = s
        for form in ([n] if n.startswith("r#") or not n.isascii() else [n, "r#" + n] if s not in ("_",) else [n]):
            k = "harvest/%s" % form
            o = "zq"
            isrc = form == "source"
            # as an ordinary field, shown in every way
            out += both(k + "/plain", [Fld(form, I32 if not isrc else e0), Fld(o, PATHBUF)], "named", Disp([Ph(u), Ph(u, "?"), Ph(o)]))
            out += both(k + "/arg", [Fld(form, I32 if not isrc else e0), Fld(o, PATHBUF)], "named", Disp([Ph(None, "?"), Ph("zz", "?"), Ph(u)], [Arg("<<0>>"), Arg("(<<0>>, <<0>>)", "zz")]))
            out += both(k + "/ptr", [Fld(o, I32), Fld(form, REFI if not isrc else disp_ty(REF_E, "d?p"))], "named", Disp([Ph(u, "p"), Ph(u), Ph(o, "x")]))
            # an error-typed field with no role, and with each
            for t in (e0, disp_ty(option(E(0)), "?"), disp_ty(BOX_SS, "d?p"), bt, disp_ty(OBT, "?")):
                for at in ((), ("source",), ("from",), ("backtrace",), ("source", "backtrace"), ("from", "backtrace")):
                    out += both(k + "/role/%s/%s" % (t.text, "+".join(at)), [Fld(form, t, at)], "named", Disp([Ph(u, "?")]))
                    out += both(k + "/role2/%s/%s" % (t.text, "+".join(at)), [Fld(o, I32), Fld(form, t, at)], "named", Disp([Ph(u, "?"), Ph(o)]))
                    out += both(k + "/role3/%s/%s" % (t.text, "+".join(at)), [Fld(form, t, at), Fld(o, bt)], "named", Disp([Lit(s + " ")]))
                    if not at:
                        out += both(k + "/beside/%s" % t.text, [Fld(form, t), Fld(o, disp_ty(E(1), "d?"), ("source",))], "named", Disp([Lit("x")]))
            out += both(k + "/transparent", [Fld(form, e0)], "named", Transparent())
            out += both(k + "/transparent-from", [Fld(form, e0, ("from",))], "named", Transparent())
        if s in KEYWORDS or s in ("str", "bool", "char", "u8", "u32", "usize", "i32"):
            pass
        elif not re.match(r"^(E\d|Option|Box|String|Vec|Self|Debug|Result|std|core|Formatter)$", s):
            # as a variant, and as the type itself
            V = s
            bs = [Body("A1", "tuple", [Fld(None, e0, ("from",))], Disp([Ph(0)])), Body(V, "named", [Fld("source", disp_ty(E(1), "d?")), Fld("bt", bt)], Disp([Ph("source")])), Body("Z1", "tuple", [Fld(None, I32)], Disp([Ph(0, "x")]))]
            if s != "S":
                out.append(Witness("harvest-variant/" + s, Shape("enum", "S", bs, attrs=["allow(non_camel_case_types)"])))
                out.append(Witness("harvest-variant-tr/" + s, Shape("enum", "S", [Body("A1", "unit", [], Disp([Lit("a")])), Body(V, "tuple", [Fld(None, e0)], Transparent()), Body("Z1", "unit", [], Disp([Lit("b")]))])))
            if s not in PRELUDE_TYPES:
                for w in (as_struct([Fld("source", e0), Fld("x", PATHBUF)], "named", Disp([Ph("source"), Ph("x")])), as_struct([Fld(None, e0, ("from",)), Fld(None, bt)], "tuple", Disp([Ph(0)]))):
                    w.name = w.bodies[0].name = s
                    if w.bodies[0].style == "tuple" and not s[0].isupper():
                        continue    # a tuple struct also names a value, which bindings of that name may not shadow
                    out.append(Witness("harvest-type/%s/%s" % (s, w.bodies[0].style), w))
                en = Shape("enum", s, [Body("A1", "tuple", [Fld(None, e0, ("from",))], Transparent()), Body("B1", "named", [Fld("x", PATHBUF)], Disp([Ph("x")]))])
                out.append(Witness("harvest-type/%s/enum" % s, en))
            # as a type parameter
            P = Ty(s, gen=True, src="ref", traits="d?xp")
            GP = Ty("G<%s>" % s, gen=True, src="ref", traits="d?xp")
            if s not in PRELUDE_TYPES:
                for t in (P, GP, option(P)):
                    for m in (Disp([Ph("f", None if not t.opt else "?")]), Disp([Ph("f", "?"), Ph("f", "x" if not t.opt else "?")]), Disp([Lit("m")])):
                        for at in ((), ("source",)):
                            out.append(Witness("harvest-param/%s/%s/%s/%s" % (s, t.text, msg_attr(Body("S", "named", [Fld("f", t)]), m), "+".join(at)),
                                               Shape("struct", "S", [Body("S", "named", [Fld("f", t, at)], m)], "<%s>" % s, "<%s>" % s, "")))
                # as the name of a type that is not a parameter
                loc = Ty(s, src="ref", traits="d?")
                pre = "pub mod zzloc { #[derive(::core::fmt::Debug)] pub struct %s { pub z: i32 } impl ::core::fmt::Display for %s { fn fmt(&self, _f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::result::Result::Ok(()) } } impl ::core::error::Error for %s {} } pub use zzloc::%s;" % (s, s, s, s)
                if s != "S":
                    out.append(Witness("harvest-local/%s" % s, Shape("struct", "S", [Body("S", "named", [Fld("f", loc), Fld("source", loc)], Disp([Ph("f"), Ph("source", "?")]))], pre=pre)))
                    out.append(Witness("harvest-local-gen/%s" % s, Shape("struct", "S", [Body("S", "named", [Fld("f", loc), Fld("t", T)], Disp([Ph("f"), Ph("t", "?")]))], "<T>", "<T>", pre=pre)))
                    out.append(Witness("harvest-local-opt/%s" % s, Shape("struct", "S", [Body("S", "named", [Fld("f", option(loc), ("source", "backtrace"))], Disp([Ph("f", "?")]))], pre=pre)))
            # as a lifetime, a const parameter, a named argument, a container attribute's word
            if s not in ("static",):
                lt = Shape("struct", "S", [Body("S", "named", [Fld("f", Ty("&'%s str" % s, traits="d?"))], Disp([Ph("f")]))], "<'%s>" % s, "<'%s>" % s)
                out.append(Witness("harvest-lifetime/" + s, lt))
        # as an explicit argument
        an = field_ident(s)
        fs = [Fld("zq", I32), Fld("zp", PATHBUF)]
        out += both("harvest-named/" + s, fs, "named", Disp([Ph(u, "?"), Ph("zq"), Ph("zp")], [Arg("<<0>>", an)]))
        out += both("harvest-named2/" + s, [Fld(an, I32 if an != "source" else e0), Fld("zp", PATHBUF)], "named", Disp([Ph(u, "?"), Ph("zp"), Ph("n", "?")], [Arg("7", an), Arg("<<0>>", "n")]))
        out += both("harvest-text/" + s, fs, "named", Disp([Lit(s), Ph("zq"), Lit(" " + s + " "), Ph("zp"), Lit(s)]))
        out += both("harvest-textonly/" + s, [Fld(None, e0, ("from",))], "tuple", Disp([Lit(s)]))
    return out


PRELUDE_TYPES = {"Option", "Box", "String", "Vec", "Self", "Debug", "Result", "E0", "E1", "G", "PathBuf", "Path", "Backtrace", "u8", "i32", "str", "usize", "u32", "bool", "char", "Some", "None", "Ok", "Err",
                 "PhantomData", "Arc", "T", "_", "Error"}


def fam_harvest_texts():
    """Each other text of the analysed source, as literal text, as a format spec and inside arguments."""
    ids, texts, ints = constants()
    out = []
    for s in texts:
        if re.search(r"[\n\r]", s):
            continue
        for fs, st, r in (([Fld("x", I32), Fld("p", PATHBUF)], "named", ("x", "p")), ([Fld(None, I32), Fld(None, PATHBUF)], "tuple", (0, 1))):
            out += both("htext/%s/%s" % (st, s), fs, st, Disp([Lit(s), Ph(r[0]), Lit(s), Ph(r[1]), Lit(s)]))
            out += both("htext-only/%s/%s" % (st, s), fs, st, Disp([Lit(s)]))
            out += both("htext-arg/%s/%s" % (st, s), fs, st, Disp([Ph("q"), Ph(r[0], "?")], [Arg(rust_str(s), "q")]))
        if len(s) == 1 and not s.isspace() and s not in "{}":
            for spec in (s + "<8", s + ">8?", s + "^9x", "08" if s.isalnum() else s + "<4"):
                out += both("hfill/" + spec, [Fld("x", I32)], "named", Disp([Ph("x", spec), Lit("!"), Ph("x")]))
    return out


def fam_harvest_sizes():
    """Bodies, enums, messages and parameter lists whose size is a constant of the source, or one off."""
    ids, texts, ints = constants()
    sizes = sorted({v + d for v in ints for d in (-1, 0, 1) if 1 <= v + d <= 130} | {5, 8, 10, 16, 17, 32, 33, 64, 65, 100})
    out = []
    ty = [I32, PATHBUF, STRING, U8, STR]
    e0, e1, bt = disp_ty(E(0), "d?"), disp_ty(option(E(1)), "?"), disp_ty(BT, "d?")
    for n in sizes:
        for named in (True, False):
            fs = [Fld("f%d" % i if named else None, ty[i % 5]) for i in range(n)]
            st = "named" if named else "tuple"
            ref = lambda i: "f%d" % i if named else i
            out += both("size/all/%s/%d" % (st, n), fs, st, Disp([x for i in range(n) for x in (Ph(ref(i)), Lit(" "))]))
            fs2 = [Fld("f%d" % i if named else None, ty[i % 5]) for i in range(n - 1)]
            for at in ("source", "backtrace", "both"):
                a = {"source": [Fld("src" if named else None, e0, ("source",))], "backtrace": [Fld("b" if named else None, bt)], "both": [Fld("src" if named else None, e1, ("source",)), Fld("b" if named else None, bt)]}[at]
                out += both("size/last-%s/%s/%d" % (at, st, n), fs2 + a, st, Disp([Ph(ref(n - 2) if n > 1 else "K", "?")]))
                out += both("size/first-%s/%s/%d" % (at, st, n), a + [Fld("f%d" % i if named else None, ty[i % 5]) for i in range(n - 1)], st, Disp([Lit("m")]))
            out += both("size/ph/%s/%d" % (st, n), [Fld("x" if named else None, REFI), Fld("p" if named else None, PATHBUF)], st,
                        Disp([Ph(("x", "p")[i % 2] if named else i % 2, [None, "?", "p"][i % 3] if i % 2 == 0 else [None, "?"][i // 2 % 2]) for i in range(n)]))
            out += both("size/args/%s/%d" % (st, n), [Fld("x" if named else None, I32), Fld("a0" if named else None, I32)], st,
                        Disp([Ph("a%d" % i, "?") for i in range(n)] + [Ph("x" if named else 0)], [Arg("<<0>>" if i % 2 else "%d" % i, "a%d" % i) for i in range(n)]))
        out += both("size/text/%d" % n, [Fld("x", PATHBUF)], "named", Disp([Lit("y" * n), Ph("x"), Lit("z" * n)]))
        out += both("size/textonly/%d" % n, [Fld("x", PATHBUF)], "named", Disp([Lit("y" * n)]))
        out += both("size/name/%d" % n, [Fld("y" * n, PATHBUF), Fld("x", I32)], "named", Disp([Ph("y" * n), Ph("x")]))
        vs = [Body("V%d" % i, "named", [Fld("x", ty[i % 5])], Disp([Lit("v%d " % i), Ph("x")])) for i in range(n)]
        vs[n // 2] = Body("Mid", "tuple", [Fld(None, e0, ("from",)), Fld(None, bt)], Disp([Ph(0)]))
        vs[-1] = Body("Last", "tuple", [Fld(None, disp_ty(E(2), "d?"), ("from",))], Transparent())
        out.append(Witness("size/enum/%d" % n, Shape("enum", "S", vs)))
        if n <= 70:
            ps = ["P%d" % i for i in range(n)]
            tf = [Fld("f%d" % i, Ty("P%d" % i, gen=True, traits="d?x")) for i in range(n)]
            out.append(Witness("size/params/%d" % n, Shape("struct", "S", [Body("S", "named", tf, Disp([Ph("f%d" % i, [None, "?", "x"][i % 3]) for i in range(n)]))], "<%s>" % ", ".join(ps), "<%s>" % ", ".join(ps), "")))
    for depth in range(1, 13):
        t = "T"
        for _ in range(depth):
            t = "G<%s>" % t
        gt = Ty(t, gen=True, src="ref", traits="d?")
        for at in ((), ("source",)):
            out.append(Witness("size/depth/%d/%s" % (depth, at), Shape("struct", "S", [Body("S", "tuple", [Fld(None, gt, at)], Disp([Ph(0)]))], "<T>", "<T>", "")))
            out.append(Witness("size/depth-opt/%d/%s" % (depth, at), Shape("struct", "S", [Body("S", "tuple", [Fld(None, option(gt), at)], Disp([Ph(0, "?")]))], "<T>", "<T>", "")))
    return out


def fam_harvest_cross(rng, count):
    ids, texts, ints = constants()
    pool = [field_ident(s) for s in ids if field_ident(s)]
    pool = [x for x in dict.fromkeys(pool + NAMES)]
    vn = [s for s in ids if s not in KEYWORDS and not re.match(r"^(E\d|S|Zz|_)$", s)]
    return fam_cross(rng, count, pool=pool, vnames=vn, prefix="hcross")


def fam_wide(rng, count):
    """Larger bodies and enums than a person would write by hand in a test."""
    return fam_cross(rng, count, prefix="wide", sizes=(6, 9, 12, 15, 20), nvar=(1, 8, 13, 20))
