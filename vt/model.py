"""A model of error types and the specification of what deriving Error for them must mean.

A `Shape` describes one input of the derive macro. From it we print
  * the input itself, with `#[derive(Error)]` and its attributes (module `d`), and
  * reference impls written directly from the documented semantics (modules `r0`, `r1`, ...:
    one per documented alternative), which never go through the macro.
The specification below is written from the crate's documentation, not from its code.
"""
import re

KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub
ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do
final macro override priv typeof unsized virtual yield try gen""".split())
NO_RAW = {"self", "Self", "super", "crate", "_"}


def unraw(n):
    return n[2:] if n.startswith("r#") else n


class Ty:
    """A field type.
    text    as written in the input
    src     None, "ref" (implements Error) or "deref" (dereferences to dyn Error): how it serves as a source
    inner   for Option<inner>: the inner type
    bt      the type's name is `Backtrace`
    btlike  None, "own" (Backtrace), "deref" (dereferences to one)
    disp    expression template giving the Display of a reference to it; "{}" or "{}.display()"
    gen     mentions a type parameter
    traits  formatting traits it implements
    """

    def __init__(self, text, src=None, inner=None, bt=False, btlike=None, disp="{}", gen=False, traits="d?", ref=None,
                 lifetime=False, pre="", prov=None):
        self.text, self.src, self.inner, self.bt, self.btlike, self.disp = text, src, inner, bt, btlike, disp
        self.gen, self.traits, self.lifetime = gen, traits, lifetime
        self.ref = ref or text   # how the reference crate writes it
        self.pre = pre
        self.prov = prov     # how provide() is forwarded to it, when not by Error::provide

    @property
    def opt(self):
        return self.inner is not None

    def __repr__(self):
        return self.text


def option(t, spell="Option<{}>", **kw):
    return Ty(spell.format(t.text), inner=t, gen=t.gen, traits="?", ref=spell.format(t.ref), lifetime=t.lifetime, **kw)


def ours(attr):
    """Whether the derive declares the attribute as one of its helpers, so that it can only stand beside the derive."""
    return re.match(r"(from|source|backtrace|error)\b(?!::)", attr) is not None


class Fld:
    def __init__(self, name, ty, attrs=(), extra=(), vis="pub "):
        self.name, self.ty, self.attrs, self.extra, self.vis = name, ty, tuple(attrs), tuple(extra), vis

    def has(self, a):
        return a in self.attrs


# ---------------------------------------------------------------- display messages

class Lit:
    def __init__(self, text):
        self.text = text


class Ph:
    """A placeholder. arg: None (next positional), int n (written {n}), or a name. spec: text after the colon, or None."""

    def __init__(self, arg=None, spec=None, pad="", raw=None):
        self.arg, self.spec, self.pad, self.raw = arg, spec, pad, raw

    def trait(self):
        s = (self.spec or "").rstrip()
        for suf, t in (("?", "Debug"), ("o", "Octal"), ("x", "LowerHex"), ("X", "UpperHex"), ("p", "Pointer"),
                       ("b", "Binary"), ("e", "LowerExp"), ("E", "UpperExp")):
            if s.endswith(suf):
                return t
        return "Display"


class Arg:
    """An explicit format argument. expr is text in which `<<i>>` stands for field i of the error."""

    def __init__(self, expr, name=None):
        self.expr, self.name = expr, name


class Disp:
    def __init__(self, pieces, args=(), trailing=False):
        self.pieces, self.args, self.trailing = list(pieces), list(args), trailing


class Transparent:
    pass


class FmtPath:
    def __init__(self, path):
        self.path = path


def rust_str(s):
    out = ['"']
    for c in s:
        if c == '"' or c == "\\":
            out.append("\\" + c)
        elif c == "\n":
            out.append("\\n")
        elif c == "\t":
            out.append("\\t")
        elif c == "\r":
            out.append("\\r")
        elif ord(c) < 32 or ord(c) == 127:
            out.append("\\x%02x" % ord(c))
        else:
            out.append(c)
    out.append('"')
    return "".join(out)


def ph_text(name, ph):
    s = "{" + name
    if ph.spec is not None:
        s += ":" + ph.spec
    return s + ph.pad + "}"


class Body:
    """A struct or an enum variant."""

    def __init__(self, name, style, fields=(), msg=None, attrs=()):
        self.name, self.style, self.fields, self.msg, self.attrs = name, style, list(fields), msg, list(attrs)
        self.eff = msg   # the message in effect (an enum may supply a default)

    # -- the documented roles of fields
    def from_field(self):
        for i, f in enumerate(self.fields):
            if f.has("from"):
                return i
        return None

    def source_field(self):
        if isinstance(self.eff, Transparent):
            return None
        for i, f in enumerate(self.fields):
            if f.has("from") or f.has("source"):
                return i
        for i, f in enumerate(self.fields):
            if f.name == "source":   # writing r#source opts out
                return i
        return None

    def provide_source(self):
        # For provide(), a transparent body's from/source/named-source field still counts as the source.
        for i, f in enumerate(self.fields):
            if f.has("from") or f.has("source"):
                return i
        for i, f in enumerate(self.fields):
            if f.name == "source":   # writing r#source opts out
                return i
        return None

    def backtrace_field(self):
        for i, f in enumerate(self.fields):
            if f.has("backtrace"):
                return i
        for i, f in enumerate(self.fields):
            if f.ty.bt:
                return i
        return None

    def member(self, i):
        f = self.fields[i]
        return f.name if f.name is not None else str(i)

    def pat(self, prefix):
        return prefix + " { " + ", ".join("%s: p%d" % (self.member(i), i) for i in range(len(self.fields))) + " }"

    def decl_fields(self, with_attrs, vis):
        def attr(f):
            a = "".join("#[%s] " % x for x in f.extra if with_attrs or not ours(x))
            if with_attrs:
                a += "".join("#[%s] " % x for x in f.attrs)
            return a
        tyof = lambda f: f.ty.text if with_attrs else f.ty.ref
        v = lambda f: f.vis if vis else ""
        if self.style == "named":
            return " { " + ", ".join("%s%s%s: %s" % (attr(f), v(f), f.name, tyof(f)) for f in self.fields) + " }"
        if self.style == "tuple":
            return "(" + ", ".join("%s%s%s" % (attr(f), v(f), tyof(f)) for f in self.fields) + ")"
        return ""


def msg_attr(body, m):
    if m is None:
        return ""
    if isinstance(m, Transparent):
        return "#[error(transparent)]"
    if isinstance(m, FmtPath):
        return "#[error(fmt = %s)]" % m.path
    s = ""
    for p in m.pieces:
        if isinstance(p, Lit):
            s += p.text.replace("{", "{{").replace("}", "}}")
        elif p.raw is not None:
            s += p.raw
        else:
            s += ph_text("" if p.arg is None else str(p.arg), p)
    args = ""
    for a in m.args:
        e = re.sub(r"<<(\d+)>>", lambda k: "." + unraw_ref(body, int(k.group(1))), a.expr)
        args += ", " + ("%s = " % a.name if a.name else "") + e
    return "#[error(%s%s%s)]" % (rust_str(s), args, "," if m.trailing else "")


def unraw_ref(body, i):
    return body.member(i)


def ref_display(body, fm="fm", alt=0):
    """The expression that formats `body`, whose fields are bound to p0, p1, ... (references)."""
    m = body.eff
    if isinstance(m, Transparent):
        return "::core::fmt::Display::fmt(p0, %s)" % fm
    if isinstance(m, FmtPath):
        return "%s(%s)" % (m.path, "".join("p%d, " % i for i in range(len(body.fields))) + fm)
    named = {unraw(a.name) for a in m.args if a.name}
    fs, extra, used = "", "", {}
    for p in m.pieces:
        if isinstance(p, Lit):
            fs += p.text.replace("{", "{{").replace("}", "}}")
            continue
        fi = None
        if isinstance(p.arg, int):
            if body.style == "tuple" and p.arg < len(body.fields):
                fi = p.arg
        elif p.arg is not None and p.arg not in named:
            for i, f in enumerate(body.fields):
                if f.name is not None and unraw(f.name) == p.arg:
                    fi = i
        if fi is None:
            fs += ph_text("" if p.arg is None else str(p.arg), p)
        else:
            t = body.fields[fi].ty
            bonus = p.spec is None
            val = t.disp.format("p%d" % fi) if bonus and p.trait() == "Display" else "p%d" % fi
            if p.trait() == "Pointer":
                val = "*p%d" % fi
            key = (fi, val)
            if key not in used:
                used[key] = "zr%d_%d" % (fi, len(used))
                extra += ", %s = %s" % (used[key], val)
            fs += ph_text(used[key], p)
    args = ""
    for a in m.args:
        e = re.sub(r"<<(\d+)>>", lambda k: "p" + k.group(1), a.expr)
        args += ", " + ("%s = " % a.name if a.name else "") + e
    return "::core::write!(%s, %s%s%s)" % (fm, rust_str(fs), args, extra)


def display_bounds(body):
    m = body.eff
    out = set()
    if m is None or isinstance(m, FmtPath):
        return out
    if isinstance(m, Transparent):
        if body.fields[0].ty.gen:
            out.add("%s: ::core::fmt::Display" % body.fields[0].ty.ref)
        return out
    named = {unraw(a.name) for a in m.args if a.name}
    for p in m.pieces:
        if isinstance(p, Lit):
            continue
        for i, f in enumerate(body.fields):
            hit = (isinstance(p.arg, int) and f.name is None and p.arg == i) or (
                isinstance(p.arg, str) and f.name is not None and unraw(f.name) == p.arg and p.arg not in named)
            if hit and f.ty.gen:
                out.add("%s: ::core::fmt::%s" % (f.ty.ref, p.trait()))
    return out


def deref_to_err(t, p, alt=0):
    # A `&'static E` may be given out as itself or as the E it refers to: both are that error.
    if t.text.startswith("&") and alt & 2:
        return "&**" + p
    return "&**" + p if t.src == "deref" else p


DYN = "&(dyn ::core::error::Error + 'static)"


def ref_source(body, alt=0):
    if isinstance(body.eff, Transparent):
        t = body.fields[0].ty
        return "::core::error::Error::source(%s)" % deref_to_err(t, "p0", alt)
    s = body.source_field()
    if s is None:
        return "::core::option::Option::None"
    t = body.fields[s].ty
    conv = lambda ty, p: "::core::option::Option::Some(%s as %s)" % (deref_to_err(ty, p, alt), DYN)
    if t.opt:
        return "match p%d { ::core::option::Option::Some(s) => %s, ::core::option::Option::None => ::core::option::Option::None }" % (
            s, conv(t.inner, "s"))
    return conv(t, "p%d" % s)


def ref_provide(body, alt):
    b = body.backtrace_field()
    if b is None:
        return "{}"
    s = body.provide_source()

    def one(t, p):
        if t.prov:
            return t.prov % (p, "rq")
        return "::core::error::Error::provide(%s, rq);" % deref_to_err(t, p, alt)

    def fwd(i):
        t = body.fields[i].ty
        if t.opt:
            return "if let ::core::option::Option::Some(s) = p%d { %s }" % (i, one(t.inner, "s"))
        return one(t, "p%d" % i)

    def own(i):
        t = body.fields[i].ty
        if t.opt:
            return "if let ::core::option::Option::Some(b) = p%d { rq.provide_ref::<::std::backtrace::Backtrace>(b); }" % i
        return "rq.provide_ref::<::std::backtrace::Backtrace>(p%d);" % i

    if s is not None and s == b:
        return "{ %s }" % fwd(s)
    if s is not None:
        if body.fields[b].has("backtrace") and alt & 1:
            return "{ %s }" % own(b)     # documentation leaves this combination open
        return "{ %s %s }" % (fwd(s), own(b))
    return "{ %s }" % own(b)


def error_bounds(body):
    out = set()
    if isinstance(body.eff, Transparent):
        if body.fields[0].ty.gen:
            out.add("%s: ::core::error::Error" % body.fields[0].ty.ref)
        return out
    s = body.source_field()
    if s is not None:
        t = body.fields[s].ty
        t = t.inner or t
        if t.gen:
            out.add("%s: ::core::error::Error + 'static" % t.ref)
    return out


def ref_from(body, selfname):
    i = body.from_field()
    if i is None:
        return None
    t = body.fields[i].ty
    parts = ["%s: %s" % (body.member(i), "::core::option::Option::Some(e)" if t.opt else "e")]
    b = body.backtrace_field()
    if b is not None and b != i:
        bt = body.fields[b].ty
        v = ("::core::option::Option::Some(::std::backtrace::Backtrace::capture())" if bt.opt
             else "::core::convert::From::from(::std::backtrace::Backtrace::capture())")
        parts.append("%s: %s" % (body.member(b), v))
    return (t.inner or t).ref, "%s { %s }" % (selfname, ", ".join(parts))


class Shape:
    def __init__(self, kind, name, bodies, generics="", params="", where="", msg=None, attrs=(), pre="", vis="pub ",
                 has_type_params=None, tags=(), note="", want=None, user_display=False, prelude=True, ref_pre=None,
                 wrap=None, inner=""):
        """kind: struct | enum. generics: `<T: X>` as declared; params: `<T>`; where: `where ...`."""
        self.kind, self.name, self.bodies = kind, name, bodies
        self.generics, self.params, self.where = generics, params, where
        self.msg, self.attrs, self.pre, self.vis = msg, list(attrs), pre, vis
        self.tags, self.note = set(tags), note
        self.user_display = user_display
        self.wrap = wrap
        self.inner = inner
        self.ref_pre = ref_pre
        if has_type_params is None:
            inner = re.sub(r"'\w+[^,>]*,?|const\s+\w+\s*:[^,>]*,?", "", generics.strip("<> "))
            has_type_params = bool(inner.strip(" ,<>"))
        self.has_type_params = has_type_params
        for b in bodies:
            b.eff = b.msg
            if kind == "enum" and b.msg is None:
                b.eff = msg
        self.has_display = bool(bodies and any(b.eff is not None for b in bodies)) or (kind == "enum" and not bodies)
        if kind == "enum":
            # Deriving Display for an enum with only some transparent variants is the user's own Display.
            self.has_display = (msg is not None or any(b.msg is not None and not isinstance(b.msg, Transparent) for b in bodies)
                                or all(isinstance(b.msg, Transparent) for b in bodies))

    def alts(self):
        xbt = refs = False
        for b in self.bodies:
            s, t = b.provide_source(), b.backtrace_field()
            xbt |= s is not None and t is not None and s != t and b.fields[t].has("backtrace")
            cand = ([s] if s is not None else []) + ([0] if isinstance(b.eff, Transparent) else [])
            refs |= any((b.fields[i].ty.inner or b.fields[i].ty).text.startswith("&") for i in cand)
        return [a for a in range(4) if (xbt or not a & 1) and (refs or not a & 2)]

    # The declaration proper.
    def decl(self, with_attrs):
        out = []
        for a in self.attrs:
            if ours(a) and not with_attrs:
                continue
            out.append("#[%s]" % a)
        generics = self.generics
        if self.kind == "struct":
            b = self.bodies[0]
            if with_attrs:
                out.append(msg_attr(b, b.msg))
            d = b.decl_fields(with_attrs, True)
            if b.style == "named":
                out.append("%sstruct %s%s %s %s" % (self.vis, self.name, generics, self.where, d))
            else:
                out.append("%sstruct %s%s%s %s;" % (self.vis, self.name, generics, d, self.where))
        else:
            if with_attrs and self.msg is not None:
                out.append(msg_attr(Body("", "unit"), self.msg) if not isinstance(self.msg, Disp) else msg_attr(self.bodies[0] if self.bodies else Body("", "unit"), self.msg))
            vs = []
            for b in self.bodies:
                a = "".join("#[%s] " % x for x in b.attrs if with_attrs or not ours(x))
                if with_attrs:
                    a += msg_attr(b, b.msg) + " "
                vs.append("    %s%s%s," % (a, b.name, b.decl_fields(with_attrs, False)))
            out.append("%senum %s%s %s {\n%s\n}" % (self.vis, self.name, generics, self.where, "\n".join(vs)))
        return "\n".join(x for x in out if x)

    def derived(self):
        body = self.pre + "\n#[derive(::thiserror::Error, ::core::fmt::Debug)]\n" + self.decl(True)
        if self.user_display:
            body += self.hand_display()
        return self.wrap(body) if self.wrap else body

    def hand_display(self):
        return "\nmod hand { use super::*; impl%s ::core::fmt::Display for %s%s %s { fn fmt(&self, _f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::panic!() } } }" % (
            self.generics_nodefault(), self.name, self.params, self.where)

    def generics_nodefault(self):
        out, depth, skip = "", 0, False
        for i, c in enumerate(self.generics):
            prev = self.generics[i - 1] if i else ""
            if c in "<([":
                depth += 1
            elif c in ")]" or c == ">" and prev not in "-=":
                depth -= 1
            if depth == 1 and c == "=":
                skip = True
            if depth == 1 and c == "," or depth == 0:
                skip = False
            if not skip:
                out += c
        return out

    def sel(self, b):
        return "Self" if self.kind == "struct" else "%s::%s" % (self.name, b.name)

    def where_plus(self, bounds):
        w = self.where.strip()
        bs = sorted(bounds)
        if not bs:
            return w
        if not w:
            return "where " + ", ".join(bs)
        return w.rstrip(",") + ", " + ", ".join(bs)

    def reference(self, alt=0):
        g = self.generics_nodefault()
        out = [self.ref_pre if self.ref_pre is not None else self.pre, "#[derive(::core::fmt::Debug)]", self.decl(False)]
        me = self.name + self.params
        eb = set()
        for b in self.bodies:
            eb |= error_bounds(b)
        if self.has_type_params:
            eb |= {"Self: ::core::fmt::Debug + ::core::fmt::Display"}
        arms_s = " ".join("%s => { %s }" % (b.pat(self.sel(b)), ref_source(b, alt)) for b in self.bodies)
        arms_p = " ".join("%s => %s" % (b.pat(self.sel(b)), ref_provide(b, alt)) for b in self.bodies)
        deref = "*self" if not self.bodies else "self"
        out.append("impl%s ::core::error::Error for %s %s {" % (g, me, self.where_plus(eb)))
        if self.bodies:
            out.append("  fn source(&self) -> ::core::option::Option<%s> { match self { %s } }" % (DYN, arms_s))
            if any(b.backtrace_field() is not None for b in self.bodies):
                out.append("  fn provide<'q>(&'q self, rq: &mut ::core::error::Request<'q>) { match self { %s } }" % arms_p)
        out.append("}")
        if self.has_display:
            db = set()
            for b in self.bodies:
                db |= display_bounds(b)
            arms_d = " ".join("%s => { %s }" % (b.pat(self.sel(b)), ref_display(b)) for b in self.bodies)
            out.append("impl%s ::core::fmt::Display for %s %s { fn fmt(&self, fm: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { match %s { %s } } }" % (
                g, me, self.where_plus(db), deref, arms_d))
        elif self.user_display:
            out.append(self.hand_display())
        for b in self.bodies:
            fr = ref_from(b, self.sel(b))
            if fr:
                out.append("impl%s ::core::convert::From<%s> for %s %s { fn from(e: %s) -> Self { %s } }" % (
                    g, fr[0], me, self.where.strip(), fr[0], fr[1]))
        return "\n".join(out)
