"""Messages that print the error itself: each one through Display must be warned about, and no other."""
import concurrent.futures, itertools, re
from . import build, compare

D = "#[derive(::thiserror::Error, Debug)]\n"
SELF = {
    "{self}": True, "{self:}": True, "{self:>5}": True, "{self:10.3}": True, "{self:\u00e9^4}": True, "{self:width$}": True, "{self:.*}": None, "{ self}": None, "{self }": True, "{self : >3}": None, "{self:x<3}": True, "{self:?}": False, "{self:#?}": False, "{self:5?}": False, "{self:? }": False, "{{self}}": False, "{{{self}}}": True, "{{{{self}}}}": False, "{self:p}": False, "{self:18p}": False, "{self:x}": False, "{self:#x}": False, "{self:X}": False, "{self:08X}": False, "{self:o}": False, "{self:b}": False, "{self:#010b}": False, "{self:e}": False, "{self:E}": False,
    "{self:>5x}": False, "{self:x>5}": True, "{self:e<}": True, "{self:?<9}": True, "{self:x?}": False, "{self:X?}": False, "{self:x}{self}": True, "{self:p}{self:b}": False, "{self:x>5x}": False, "{self:+.3e}": False, "{self:p<4}": True,
    "{self:#?}{self}": True, "{self}{self:?}": True, "{self:?}{self:?}": False, "{self:}>5}": None, "{self:}}": None,
}
AROUND = ["%s", "a %s", "%s z", "{{%s", "{{}}%s", "%s}}", "{x} %s", "%s {x}", "{x:?} %s {x:x}", "\u00e9%s\u4e2d", "%s{y}{y:?}", "{x}{x}%s{x}"]


class Rw:
    """derived: text whose line k is expected to be warned about iff k is in lines."""

    def __init__(self, key, derived, lines):
        self.key, self.derived, self.lines = key, derived, lines

    def text(self, n):
        return "pub mod w%d { use super::sup::*;\n%s\n}" % (n, self.derived)


def subjects():
    out = []
    for (s, rec), a in itertools.product(SELF.items(), AROUND):
        if rec is None:
            continue
        m = a % s
        plain = "{x}" not in m and "{x:" not in m and "{y" not in m
        if "width$" in m:
            fields, tup = "pub x: i32, pub y: i32, pub width: usize", None
        else:
            fields, tup = "pub x: i32, pub y: i32", "(pub i32)"
        q = '"%s"' % m
        n0 = len(out)
        named = D + "#[error(%s)]\npub struct S { %s }" % (q, fields)
        out.append(Rw("rec/named/" + m, named, {2} if rec else set()))
        if plain and tup:
            out.append(Rw("rec/tuple/" + m, D + "#[error(%s)]\npub struct S%s;" % (q, tup), {2} if rec else set()))
            out.append(Rw("rec/unit/" + m, D + "#[error(%s)]\npub struct S;" % q, {2} if rec else set()))
        vf = fields.replace("pub ", "")
        # one such variant among others, which are not warned about
        for k in range(3):
            lines = ["#[error(\"o{self:?}\")]\nA { %s }," % vf, "#[error(\"p{x}{y}\")]\nB { %s }," % vf, "#[error(\"{{self}}\")]\nC { %s }," % vf]
            lines[k] = "#[error(%s)]\n%s { %s }," % (q, "ABC"[k], vf)
            out.append(Rw("rec/variant%d/%s" % (k, m), D + "pub enum S {\n" + "\n".join(lines) + "\n}", {3 + 2 * k} if rec else set()))
        # every variant
        out.append(Rw("rec/all/" + m, D + "pub enum S {\n" + "\n".join("#[error(%s)]\n%s { %s }," % (q, v, vf) for v in "ABC") + "\n}", {3, 5, 7} if rec else set()))
        # the enum's own message
        out.append(Rw("rec/level/" + m, D + "#[error(%s)]\npub enum S { A { %s }, #[error(\"b\")] B }" % (q, vf), {2} if rec else set()))
        # raw literal
        out.append(Rw("rec/raw/" + m, D + "#[error(r#\"%s\"#)]\npub struct S { %s }" % (m, fields), {2} if rec else set()))
        # beside arguments
        out.append(Rw("rec/args/" + m, D + "#[error(\"%s{}{z}\", .x, z = .y)]\npub struct S { %s }" % (m, fields), {2} if rec else set()))
        out.append(Rw("rec/generic/" + m, D + "#[error(%s)]\npub struct S<T: ::core::fmt::Debug> { %s, pub t: T }" % (q, fields) if "x" not in s else named, {2} if rec else set()))
        # the traits that `self` may be printed through
        for w in out[n0:]:
            g = "<T: ::core::fmt::Debug> " if "S<T" in w.derived else ""
            for tr, c in (("LowerHex", "x"), ("UpperHex", "X"), ("Octal", "o"), ("Binary", "b"), ("LowerExp", "e"), ("UpperExp", "E")):
                if re.search(r"\{self:[^}]*%s\}" % c, s):
                    w.derived += "\nimpl%s ::core::fmt::%s for S%s { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(\"\") } }" % (g, tr, "<T>" if g else "")
    # Fields and arguments that only look like it
    for k, (t, l) in enumerate((
        (D + "#[error(\"{self_}\")]\npub struct S { pub self_: i32 }", set()), (D + "#[error(\"{selfish}\")]\npub struct S { pub selfish: i32 }", set()), (D + "#[error(\"{x}\", x = self.y)]\npub struct S { pub y: i32 }", set()), (D + "#[error(\"{x:?}\", x = self)]\npub struct S { pub y: i32 }", set()),
        (D + "#[error(\"{Self_}\")]\npub struct S { pub Self_: i32 }", set()), (D + "#[error(transparent)]\npub struct S(pub E0);", set()), (D + "#[error(\"{source}\")]\npub struct S { pub source: E0 }", set()), (D + "#[error(\"self\")]\npub struct S;", set()), (D + "#[error(\"{0}\")]\npub struct S(pub E0);", set()),
        (D + "#[error(\"{0}\")]\npub struct S(pub Box<S2>);\n" + D + "#[error(\"{0}\")]\npub struct S2(pub i32);", set()),
    )):
        out.append(Rw("rec/none/%d" % k, t, l))
    return out


def run(d, name, ws, edition="2021", chunk=200, jobs=8):
    res = compare.Result()
    head = "#![feature(error_generic_member_access)]\n#![allow(dead_code, unused, non_snake_case, missing_docs)]\n"
    sup = compare.SUP

    def one(nm, live):
        r = compare.Result()
        for attempt in range(6):
            text = head + sup + "\n".join(w.text(n) for n, w in live) + "\n"
            c = build.compile_witness(d, nm, text, facts=False, edition=edition)
            lm = compare.line_map(live, (head + sup).count("\n"))
            if c.ok:
                break
            bad = {}
            for x in c.diags:
                if x["level"].startswith("error") and not x["message"].startswith("aborting"):
                    o = compare.owner(x, lm, nm + ".rs")
                    if o is not None:
                        bad.setdefault(o, x["message"] + " " + compare.first_line(x))
            if not bad:
                raise build.BuildError("crate %s: %s" % (nm, c.raw[-500:]))
            byn = dict(live)
            for n, m in bad.items():
                r.n += 1
                r.viol.append((byn[n], "compile", "this valid input does not compile: " + m))
            live = [(n, w) for n, w in live if n not in bad]
        start = {n: a for a, b, n in lm}
        got = {n: set() for n, _ in live}
        for x in c.diags:
            if (x.get("code") or {}).get("code") != "unconditional_recursion":
                continue
            r.paths += 1
            o = compare.owner(x, lm, nm + ".rs")
            if o is None:
                continue
            for sp in x["spans"]:
                if sp["is_primary"]:
                    got[o].add(sp["line_start"] - start[o])
        for n, w in live:
            r.n += 1
            r.fns += 1
            if got[n] != w.lines:
                miss, extra = sorted(w.lines - got[n]), sorted(got[n] - w.lines)
                if miss:
                    r.viol.append((w, "recursion", "a message that prints itself is not warned about (line %s)" % miss))
                if extra:
                    r.viol.append((w, "recursion", "warned about recursion where there is none (line %s)" % extra))
        if live:
            r.samples.append(live[0][1])
        return r
    ws = list(enumerate(ws))
    parts = [("%s_%d" % (name, i // chunk), ws[i:i + chunk]) for i in range(0, len(ws), chunk)]
    with concurrent.futures.ThreadPoolExecutor(max_workers=jobs) as ex:
        for r in ex.map(lambda p: one(*p), parts):
            compare.merge(res, r)
    return res
