"""The same inputs, written through macro_rules macros: fragments arrive as invisible groups and with other hygiene."""
import copy, random, re
from .model import *
from .compare import Witness
from . import corpus, corpus_display, corpus_generics


def scan_literal(s, i):
    """End of the string, byte string or char literal that starts at s[i], or None."""
    m = re.match(r'b?r(#*)"', s[i:])
    if m:
        e = s.find('"' + m.group(1), i + m.end())
        return e + 1 + len(m.group(1))
    m = re.match(r'b?"', s[i:])
    if m:
        j = i + m.end()
        while s[j] != '"':
            j += 2 if s[j] == "\\" else 1
        return j + 1
    m = re.match(r"b?'(\\[^u]|\\u\{[^}]*\}|[^'\\])'", s[i:])
    if m:
        return i + m.end()
    return None


def find_close(s, i):
    """s[i] opens a bracket; index just after its match."""
    depth = 0
    while True:
        e = scan_literal(s, i) if s[i] in "\"'br" and not (i and (s[i - 1].isalnum() or s[i - 1] == "_")) else None
        if e:
            i = e
            continue
        if s[i] in "([{":
            depth += 1
        elif s[i] in ")]}":
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1


class MacroShape(Shape):
    """Prints as the expansion of a macro that takes parts of the input as fragments."""

    def __init__(self, base, mode):
        self.__dict__.update(base.__dict__)
        self.base, self.mode = base, mode

    def derived(self):
        b = self.base
        modes = self.mode.split("+")
        frag, raw = [], []

        def take(kind, text):
            # A fragment is written out where the macro is called.
            raw.append(text)
            frag.append((kind, re.sub(r"\$x(\d+)", lambda m: frag[int(m.group(1))][1], text)))
            return "$x%d" % (len(frag) - 1)
        # Enum-level messages refer to fields through one shared list, so bodies stay independent copies.
        old = b.bodies
        new = []
        for body in old:
            nb = copy.copy(body)
            nb.fields = []
            for f in body.fields:
                nf = copy.copy(f)
                if "ty" in modes:
                    nf.ty = copy.copy(f.ty)
                    nf.ty.text = take("ty", f.ty.text)
                elif "inner" in modes:
                    nf.ty = copy.copy(f.ty)
                    if f.ty.opt:
                        nf.ty.text = f.ty.text.replace(f.ty.inner.text, take("ty", f.ty.inner.text), 1)
                    elif re.match(r"^[\w:]+<[\w:]+>$", f.ty.text):
                        i = f.ty.text.index("<")
                        nf.ty.text = f.ty.text[:i + 1] + take("ty", f.ty.text[i + 1:-1]) + ">"
                if "ident" in modes and f.name is not None:
                    nf.name = take("ident", f.name)
                nb.fields.append(nf)
            if "ident" in modes and b.kind == "enum":
                nb.name = take("ident", nb.name)
            if "expr" in modes and isinstance(nb.msg, Disp):
                nb.msg = Disp(nb.msg.pieces, [Arg(take("expr", a.expr) if "<<" not in a.expr else a.expr, a.name) for a in nb.msg.args], nb.msg.trailing)
            if "operand" in modes and isinstance(nb.msg, Disp):
                nb.msg = Disp(nb.msg.pieces, [Arg(self.operands(a.expr, take), a.name) for a in nb.msg.args], nb.msg.trailing)
            if "path" in modes and isinstance(nb.msg, FmtPath):
                nb.msg = FmtPath(take(self.path_kind(), nb.msg.path))
            new.append(nb)
        c = copy.copy(b)
        c.bodies = new
        if "ident" in modes:
            c.name = take("ident", b.name)
        decl = "#[derive(::thiserror::Error, Debug)]\n" + c.decl(True)
        if "literal" in modes:
            decl = self.replace_attr(decl, lambda a: self.lit(a, take))
        if "meta" in modes:
            decl = self.replace_attr(decl, lambda a: "#[" + take("meta", a[2:-1]) + "]")
            decl = re.sub(r"#\[(source|from|backtrace)\]", lambda m: "#[" + take("meta", m.group(1)) + "]", decl)
        if "args" in modes:
            decl = self.replace_attr(decl, lambda a: "#[error(" + take("tts", a[8:-2]) + ")]")
        if "index" in modes:
            decl = self.replace_attr(decl, lambda a: self.args(a, r"\.(\d+)(?![\d.])", lambda m: "." + take("tt", m.group(1))))
        if "name" in modes:
            decl = self.replace_attr(decl, lambda a: self.args(a, r"\.((?:r#)?[a-zA-Z_]\w*)", lambda m: "." + take("ident", m.group(1))))
        if "tt" in modes:
            return "%s\nmacro_rules! mk { ($($body:tt)*) => { $($body)* } }\nmk! { %s }%s" % (b.pre, decl, b.hand_display() if b.user_display else "")
        if "tt2" in modes:
            return "%s\nmacro_rules! mk { ($($body:tt)*) => { mk2! { @ $($body)* } } }\nmacro_rules! mk2 { (@ $i:item) => { $i } }\nmk! { %s }%s" % (b.pre, decl, b.hand_display() if b.user_display else "")
        pat = " ".join("($($x%d:tt)*)" % i if k == "tts" else "($x%d:%s)" % (i, k) for i, (k, _) in enumerate(frag))
        for i, (k, _) in enumerate(frag):
            if k == "tts":
                decl = re.sub(r"\$x%d\b" % i, "$($x%d)*" % i, decl)
        arg = " ".join("(%s)" % t for _, t in frag)
        if "deep" in modes:
            # The fragment reaches the derive through another macro, as it is or as a part of a bigger expression.
            return "%s\nmacro_rules! mk { (%s) => { mk2! { %s } } }\nmacro_rules! mk2 { (%s) => { %s } }\nmk! { %s }" % (
                b.pre, pat, " ".join("(%s$x%d)" % ("1 + " if "grow" in modes and k == "expr" else "", i) for i, (k, _) in enumerate(frag)), pat, decl, arg)
        if "nest" in modes:
            # Attributes are written by one macro, the rest by another, names and types by the caller of the first.
            outer = [i for i, (k, _) in enumerate(frag) if k != "tts"]
            return "%s\nmacro_rules! mk { (%s) => { mk2! { %s } } }\nmacro_rules! mk2 { (%s) => { %s } }\nmk! { %s }%s" % (
                b.pre, " ".join("($x%d:%s)" % (i, frag[i][0]) for i in outer), " ".join("(%s)" % (raw[i] if frag[i][0] == "tts" else "$x%d" % i) for i in range(len(frag))),
                pat, decl, " ".join("(%s)" % frag[i][1] for i in outer), b.hand_display() if b.user_display else "")
        return "%s\nmacro_rules! mk { (%s) => { %s } }\nmk! { %s }%s" % (b.pre, pat, decl, arg, b.hand_display() if b.user_display else "")

    def operands(self, text, take):
        """Arguments in which one of OPERANDS stands in parentheses: the fragment comes without them."""
        for kind, frag in sorted(OPERANDS, key=lambda o: (-len(o[1]), o)):
            grown = "(1 + (" + frag + "))"
            if grown in text:
                return text.replace(grown, take(kind, frag))
            if "(" + frag + ")" in text:
                return text.replace("(" + frag + ")", take(kind, frag))
        return text

    def path_kind(self):
        return "path"

    @staticmethod
    def replace_attr(decl, fn):
        out, i = "", 0
        while True:
            j = decl.find("#[error(", i)
            if j < 0:
                return out + decl[i:]
            e = find_close(decl, j + 1)
            out += decl[i:j] + fn(decl[j:e])
            i = e

    @staticmethod
    def lit(a, take):
        if not a.startswith('#[error("'):
            return a
        e = scan_literal(a, 8)
        return "#[error(" + take("literal", a[8:e]) + a[e:]


    @staticmethod
    def args(a, pat, fn):
        if not a.startswith('#[error("'):
            return a
        e = scan_literal(a, 8)
        return a[:e] + re.sub("(?<=[ (&*!+,])" + pat, fn, a[e:])


def positional_only(sh):
    """Whether the message can be split from the fields without changing what it captures."""
    for b in sh.bodies:
        m = b.eff
        if isinstance(m, Disp):
            for p in m.pieces:
                if isinstance(p, Ph) and isinstance(p.arg, str) and not any(f.name and unraw(f.name) == p.arg for f in b.fields) and p.arg not in {unraw(a.name) for a in m.args if a.name}:
                    return False
    return True


MODES = ["tt", "tt2", "ty", "inner", "ident", "literal", "meta", "expr+path", "ty+ident", "ty+literal", "ident+literal", "ty+ident+literal+expr", "ty+ident+meta", "args", "index", "name", "ident+index+name", "ident+args", "ty+meta", "args+nest", "ident+args+nest", "ty+ident+args+nest"]


def usable(w, mode):
    sh = w.shape
    if isinstance(sh, MacroShape) or sh.wrap:
        return False
    for b in sh.bodies:
        m = b.eff
        if isinstance(m, FmtPath) and m.path.startswith("<") and "path" in mode:
            return False    # `$p:path` does not match a qualified path
        if not isinstance(m, Disp):
            continue
        for a in m.args:
            # Labels, and locals bound by a pattern, may not cross the macro boundary; blocks of statements are not the point here.
            if "macro_rules" in a.expr:
                return False
    return True


def fam_macro(rng, count):
    pool = []
    r2 = random.Random(rng.random())
    fams = [corpus.fam_one_field(), corpus.fam_two_fields(), corpus.fam_many_fields(r2, 60), corpus.fam_enums(r2, 150), corpus.fam_transparent(), corpus.fam_user_display(),
            corpus_display.fam_specs(), corpus_display.fam_repeats(), corpus_display.fam_names(), corpus_display.fam_positions(8), corpus_display.fam_named_args(),
            corpus_display.fam_enum_level(), corpus_display.fam_contexts(), corpus_display.fam_literals(), corpus_generics.fam_bounds(), corpus_generics.fam_source_bounds(), corpus_generics.fam_generic_headers()]
    for f in fams:
        pool.append([w for w in f])
    out = []
    per = max(1, count // len(fams))
    for f in pool:
        for _ in range(per):
            w = rng.choice(f)
            m = rng.choice(MODES)
            if usable(w, m) and positional_only(w.shape):
                sh = MacroShape(w.shape, m)
                if m in ("index", "name", "args") and "$x" not in sh.derived():
                    continue
                out.append(Witness("macro/%s/%s" % (m, w.key), sh))
    return out


def fam_macro_fixed():
    """A fixed selection that exercises each mode on each role."""
    out = []
    rng = random.Random(20250101)
    sel = []
    one = corpus.fam_one_field()
    for w in one:
        f = w.shape.bodies[0].fields[0]
        if f.name in (None, "source") and f.ty.text in ("E0", "Option<E0>", "Backtrace", "Option<Backtrace>", "Box<dyn std::error::Error + Send + Sync>", "anyhow::Error", "i32", "&'static E0", "std::backtrace::Backtrace"):
            sel.append(w)
    sel += corpus_display.fam_named_args()
    sel += corpus_display.fam_enum_level()
    for w in rng.sample(corpus_display.fam_specs(), 60) + rng.sample(corpus_display.fam_names(), 80) + rng.sample(corpus_display.fam_contexts(), 80) + rng.sample(corpus_generics.fam_bounds(), 60) + rng.sample(corpus_generics.fam_source_bounds(), 60) + rng.sample(corpus.fam_transparent(), 30):
        sel.append(w)
    for w in sel:
        for m in MODES:
            if usable(w, m) and positional_only(w.shape):
                sh = MacroShape(w.shape, m)
                if m in ("index", "name", "args") and "$x" not in sh.derived():
                    continue
                out.append(Witness("macro/%s/%s" % (m, w.key), sh))
    return out


# Fragments of type i32, with which the operators next to them must not regroup
OPERANDS = [("expr", e) for e in """1i32 + 2
4i32 - 1
-3i32
!5i32
6i32
1i32 << 2
7i32 & 3
7 as i32
9u8 as i32 + 1
*&9i32
[4i32, 2][0]
(4i32, 2).0 + 1
abs(1) + 1
if true { 1i32 } else { 2 }
if true { 1i32 } else { 2 } + 3
match 5 { 5 => 1i32, _ => 2 }
{ 8i32 } + 1
unsafe { 8i32 } - 1
[1, 2].len() as i32
i32::MAX - 1
Some(2i32).unwrap_or(1) * 2
abs(-3)""".split("\n")] + [("literal", "-8i32"), ("literal", "11i32"), ("block", "{ 12i32 }"), ("path", "i32::MIN")]
OPERAND_CONTEXTS = """X
2 * X
X * 2
X - 1
10 - X
-X
!X
&X
*&X
X.pow(2)
X.abs() + 1
X as i64
X as u8 as i32 + 1
<<0>> * X
X - <<1>>
X % *<<0>> - X
[X, 2 * X]
(X, X * 2).1
abs(X * 2)
3 << X
X == 3
X <= 2
1 > X
if X > 1 { 1 } else { 2 * X }
{ let x = X; x * X }
match X { 1 => 1, n => n * X }
<<0>>.max(&X).abs() - X""".split("\n")
ABS = "fn abs(x: i32) -> i32 { x }\n"


def fam_macro_operands():
    """Expressions interpolated as an operand keep their grouping."""
    out = []
    i32t = lambda: Ty("i32")
    i = 0
    for kind, frag in OPERANDS:
        for ctx in OPERAND_CONTEXTS:
            mode = ("operand", "operand", "operand+deep", "operand+deep+grow")[(i + i // 28) % 4]
            if "grow" in mode and kind != "expr":
                mode = "operand+deep"
            e = ctx.replace("X", "(1 + (%s))" % frag if "grow" in mode else "(%s)" % frag)
            named = i % 2 == 0
            i += 1
            if named:
                d = Disp([Lit("m "), Ph("n", "?")], [Arg(e, "n")], trailing=i % 4 == 1)
            else:
                d = Disp([Lit("m "), Ph(None, "?"), Ph(None)], [Arg(e), Arg("1")])
            fs = [Fld("a" if named else None, i32t()), Fld("b" if named else None, i32t())]
            st = "named" if named else "tuple"
            b = Body("S" if i % 3 else "A", st, fs, d)
            sh = Shape("struct", "S", [b], pre=ABS) if i % 3 else Shape("enum", "S", [Body("B", "unit", [], Disp([Lit("b")])), b], pre=ABS)
            out.append(Witness("macro/%s/%s/%s/%s" % (mode, kind, frag, ctx), MacroShape(sh, mode)))
    return out
