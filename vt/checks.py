"""Which obligations decide which property, and the driver that runs them."""
import json, os, re, sys, time, traceback, zlib
from . import audit, build, compare, lint, plain, recursion, reject, robust
from .families import *
from .model import Disp, FmtPath

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")


class Finding:
    """One violation. key identifies it without line numbers."""

    def __init__(self, key, text, replay=""):
        self.key, self.text, self.replay = key, text, replay


class Report:
    def __init__(self, pid, ctx):
        self.pid, self.ctx = pid, ctx
        self.findings = []
        self.programs = 0        # distinct analysed inputs
        self.compared = 0        # function bodies / headers compared or verdicts judged
        self.paths = 0
        self.groups = []
        self.samples = []
        self.rules = []

    def group(self, name, **kw):
        self.groups.append(dict(group=name, **kw))


PROPS = {}


def prop(pid, level="translation_validation"):
    def deco(f):
        PROPS[pid] = (f, level)
        return f
    return deco


# ------------------------------------------------------------------ what a quick check leaves out

# The big families, each with what a quick check takes of it (one in k, by a hash of the input's key and the seed) where the
# family is not about the property. A thorough check takes everything.
THIN = {"spellings": 8, "grammar": 6, "captured": 3, "harvest_names": 2, "macro_fixed": 4, "lookalikes": 3, "scopes": 2, "functions": 3, "foreign": 3, "exprs": 2}
FOCUS = {
    "C01": MESSAGES + GENERICS + ["harvest_names"], "C02": MESSAGES + ARGS + MACRO + GENERICS, "C03": ROLES + HARVEST, "C04": ROLES + HARVEST, "C05": list(THIN), "C06": ROLES + HARVEST,
    "C09": list(THIN), "C10": list(THIN), "C11": [], "C12": MESSAGES + HARVEST, "C13": [], "C14": list(THIN), "C18": ROLES + GENERICS, "C19": list(THIN), "C20": list(THIN),
    "C22": ROLES, "C25": MACRO + ["scopes", "functions", "exprs"], "C26": list(THIN), "C27": GENERICS, "C28": list(THIN),
}


def thinned(rep, name, w):
    k = THIN.get(name, 1)
    if k == 1 or rep.ctx.thorough:
        return False
    if name in FOCUS[rep.pid]:
        # The largest is shared among the properties it is about, each taking another part.
        k = 3 if name == "spellings" and rep.pid in ("C03", "C04", "C06", "C18") else 1
    return zlib.crc32(("%s/%s/%s" % (rep.ctx.seed, rep.pid, w.key)).encode()) % k != 0


# ------------------------------------------------------------------ building blocks

def compare_group(rep, kind, fams, aspects, edition="2021", compile_counts=True, deps=None, keep=None, **kw):
    d = deps or build.deps(kind)
    want = set(aspects)
    for name in fams:
        ws = FAM[name](rep.ctx)
        seen, uniq = set(), []
        for w in ws:
            if w.key not in seen and (keep is None or keep(w)) and not thinned(rep, name, w):
                seen.add(w.key)
                uniq.append(w)
        if not uniq:
            continue
        t = time.time()
        r = compare.run(d, "%s_%s_%s_%s" % (rep.pid.lower(), kind, edition, name), uniq, want, edition=edition, **kw)
        if r.n != len(uniq):
            raise build.BuildError("family %s: %d of %d inputs were judged" % (name, r.n, len(uniq)))
        rep.programs += r.n
        rep.compared += r.fns
        rep.paths += r.paths
        rep.group("%s [%s, edition %s]" % (name, kind, edition), inputs=r.n, bodies=r.fns, paths=r.paths, rejected=r.failed_compile,
                  aspects=sorted(want), wall_s=round(time.time() - t, 1))
        for w in r.samples[:1]:
            rep.samples.append({"family": name, "key": w.key, "input": w.shape.derived()})
        for w, a, text in r.viol:
            if a not in want and not (a == "compile" and compile_counts) and a != "impls":
                continue
            if a == "impls" and "impls" not in want and "generated nothing" not in text:
                continue
            rep.findings.append(Finding("%s/%s/%s" % (kind, a, w.key), text, "// family %s, configuration %s, edition %s\n%s" % (name, kind, edition, w.text(0))))


def reject_group(rep, kind, fams, aspects):
    d = build.deps(kind)
    for name in fams:
        bads = getattr(reject, "fam_" + name)()
        t = time.time()
        r = reject.run_bad(d, "%s_bad_%s" % (rep.pid.lower(), name), bads, set(aspects))
        if r.n != len(bads):
            raise build.BuildError("family %s: %d of %d inputs were judged" % (name, r.n, len(bads)))
        rep.programs += r.n
        rep.compared += r.n
        rep.group("must-reject %s [%s]" % (name, kind), inputs=r.n, diagnostics=r.paths, aspects=sorted(aspects), wall_s=round(time.time() - t, 1))
        for w in r.samples[:1]:
            rep.samples.append({"family": name, "key": w.key, "input": w.text})
        for w, a, text in r.viol:
            rep.findings.append(Finding("%s/%s/%s" % (kind, a, w.key), text, "// must be rejected: %s\n%s" % (w.rule, w.module(0))))


def plain_group(rep, label, name, ws, compile, head, sup, after=None):
    t = time.time()
    r = plain.run("%s_%s" % (rep.pid.lower(), name), ws, compile, head, sup, after=after)
    record(rep, label, r, len(ws), t)


def record(rep, label, r, want, t):
    if r.n != want:
        raise build.BuildError("%s: %d of %d inputs were judged" % (label, r.n, want))
    rep.programs += r.n
    rep.compared += r.fns
    rep.paths += r.paths
    rep.group(label, inputs=r.n, bodies=r.fns, wall_s=round(time.time() - t, 1))
    for w in r.samples[:1]:
        rep.samples.append({"family": label, "key": w.key, "input": w.text if isinstance(w.text, str) else w.text(0)})
    for w, a, text in r.viol:
        rep.findings.append(Finding("%s/%s/%s" % (label.replace(" ", "_"), a, w.key), text, "// %s\n%s" % (label, w.text if isinstance(w.text, str) else w.text(0))))


def shapes(rep, fams, keep):
    out, seen = [], set()
    for f in fams:
        for w in FAM[f](rep.ctx):
            if w.key not in seen and keep(w) and not thinned(rep, f, w):
                seen.add(w.key)
                out.append(w)
    return out


REJECTS = ["structural", "attributes", "ambiguous", "lifetimes", "types"]


# ------------------------------------------------------------------ properties

@prop("C01")
def c01(rep):
    """Display of each generated impl, path by path, against a hand-written Display of the same message."""
    compare_group(rep, "std", ALL, ["display"])


@prop("C02")
def c02(rep):
    """Trailing format arguments and the field shorthand in them, with and without syn's full expression parser."""
    compare_group(rep, "std", ARGS + ["captures"], ["display"])
    compare_group(rep, "full", ARGS + ["captures"], ["display"])
    rest = [f for f in ALL if f not in ARGS]
    compare_group(rep, "std", rest, ["display"], keep=has_args)
    compare_group(rep, "full", rest, ["display"], keep=has_args)


@prop("C03")
def c03(rep):
    """source() of each generated impl, path by path, against the documented choice of source field."""
    compare_group(rep, "std", ALL, ["source"])


@prop("C04")
def c04(rep):
    """The From impls generated: which exist, and the value each builds."""
    compare_group(rep, "std", ALL, ["from"])


@prop("C05")
def c05(rep):
    """Transparent errors forward Display and source to the one field they wrap."""
    compare_group(rep, "std", ALL, ["source", "display", "provide", "preds"], keep=lambda w: "transparent" in w.shape.derived())


@prop("C06")
def c06(rep):
    """provide() of each generated impl: which backtraces are offered, in what order, and the forwarding to the source."""
    compare_group(rep, "std", ALL, ["provide"])


@prop("C07")
def c07(rep):
    """Every enumerated violation of a documented rule is refused by the macro itself."""
    reject_group(rep, "std", ["structural", "attributes", "ambiguous"], ["reject"])
    reject_group(rep, "full", ["ambiguous"], ["reject"])


@prop("C08")
def c08(rep):
    """After a refused input the type still implements Error and Display, so one mistake gives one error."""
    reject_group(rep, "std", REJECTS, ["fallback"])


@prop("C09")
def c09(rep):
    """The where-clauses and headers of each generated impl against the bounds the documented inference gives."""
    compare_group(rep, "std", ALL, ["preds", "impls"], keep=generic)


@prop("C10")
def c10(rep):
    """Whatever names, macros, traits and methods surround the type, the generated impls mean the same."""
    compare_group(rep, "std", SURROUND + ["harvest_names", "functions"], ["display", "source", "provide", "from", "preds", "impls"])


@prop("C11")
def c11(rep):
    """Nothing but the documented trait impls, marked as derived, comes out of the expansion."""
    compare_group(rep, "std", ALL, ["impls", "attrs", "items"])


@prop("C12")
def c12(rep):
    """Enum-level messages: which variants inherit them, and when no Display is generated."""
    compare_group(rep, "std", ALL, ["display", "impls"], keep=lambda w: w.shape.kind == "enum" or w.shape.user_display)


@prop("C13")
def c13(rep):
    """Without the std feature: the same impls, in crates and with a runtime that need core only."""
    nd = build.deps("nostd")
    fams = ROLES + MESSAGES + ARGS + GENERICS + MACRO + ["cross", "field_names", "scopes"]
    keep = lambda w: not re.search(r"Path|Trace|Backtrace|anyhow", w.shape.derived())
    compare_group(rep, "nostd", fams, ["display", "source", "provide", "from", "preds", "impls"], keep=keep)
    f = json.load(open(nd.facts["thiserror"]))
    bad = sorted(set(f["crates"]) & {"std", "alloc"})
    rep.rules.append({"rule": "the runtime crate built without std links core only", "instances": len(f["crates"]), "violations": len(bad), "linked": f["crates"]})
    if bad:
        rep.findings.append(Finding("nostd/links/%s" % "+".join(bad), "thiserror without the std feature links %s" % bad))
    ws = [plain.Pw(w.key, w.shape.derived()) for w in shapes(rep, fams, lambda w: plain.portable(w) and not w.shape.inner)]
    after = lambda c: ["the no_std crate comes to link std"] if "std" in c.facts["crates"] else []
    plain_group(rep, "no_std crate, thiserror without std", "nostd", ws, lambda nm, tx, to: build.compile_witness(nd, nm, tx, timeout=to), plain.NOSTD_HEAD, plain.NOSTD_SUP, after)
    sd = build.deps("std")
    plain_group(rep, "no_std crate, thiserror with std", "nostd_u", ws, lambda nm, tx, to: build.compile_witness(sd, nm, tx, facts=False, timeout=to), plain.NOSTD_HEAD, plain.NOSTD_SUP)


@prop("C14")
def c14(rep):
    """Types assembled by macro_rules, and raw identifiers, behave as the same types written out."""
    compare_group(rep, "std", MACRO, ["display", "source", "provide", "from", "preds", "impls"])
    compare_group(rep, "full", MACRO, ["display", "source", "provide", "from", "preds", "impls"])
    compare_group(rep, "std", ["cross", "harvest_names", "field_names"], ["display", "source", "provide", "from", "preds", "impls"], keep=lambda w: "r#" in w.shape.derived())


def has_args(w):
    return any(isinstance(b.eff, Disp) and b.eff.args for b in w.shape.bodies)


def generic(w):
    return bool(w.shape.generics or w.shape.where)


def sourceful(w):
    return re.search(r"Box<|Arc<|Rc<|dyn|Option<|&'static|\bG<", w.shape.derived()) is not None


@prop("C15")
def c15(rep):
    """No lint of the compiler or of clippy fires on the expansion that does not fire on the bare type."""
    d = build.deps("std")
    ws = lint.subjects()
    for ed in ("2021", "2018", "2024"):
        t = time.time()
        r = lint.run(d, "c15_%s" % ed, ws, edition=ed)
        record(rep, "compiler lints, edition " + ed, r, len(ws), t)
    t = time.time()
    record(rep, "clippy lints", lint.run(d, "c15_clippy", ws, clippy=True), len(ws), t)


@prop("C22")
def c22(rep):
    """On compilers without generic member access: no provide(), everything else the same."""
    d = build.deps("std", gma=False)
    fams = ROLES + MESSAGES + GENERICS + ["cross", "wide", "harvest_sizes"]
    compare_group(rep, "nogma", fams, ["display", "source", "provide", "from", "preds", "impls"], deps=d, keep=plain.no_provide, head=compare.HEAD.replace("#![feature(error_generic_member_access)]\n", ""))
    sd = plain.stable_deps("std")
    ws = [plain.Pw(w.key, w.shape.derived()) for w in shapes(rep, ROLES + MESSAGES + ARGS + GENERICS + MACRO + ["cross", "field_names", "scopes"], lambda w: plain.no_provide(w) and not w.shape.inner)]
    for ed in ("2018", "2021", "2024"):
        plain_group(rep, "stable toolchain, edition " + ed, "stable_" + ed, [w for w in ws if plain.fits_text(ed, w.body)], lambda nm, tx, to, ed=ed: plain.compile_stable(sd, nm, tx, ed, to), plain.STABLE_HEAD, compare.SUP)


@prop("C18")
def c18(rep):
    """Each accepted kind of source type yields the error it holds, not a wrapper of it."""
    compare_group(rep, "std", ALL, ["source", "provide", "preds"], keep=sourceful)


@prop("C19")
def c19(rep):
    """Path and PathBuf fields print through Path::display, everything else through its own Display."""
    compare_group(rep, "std", ALL, ["display", "preds"], keep=lambda w: "Path" in w.shape.derived())


@prop("C20")
def c20(rep):
    """`{:p}` prints the address the field holds, not the address of the field."""
    compare_group(rep, "std", ALL, ["display", "preds"], keep=lambda w: re.search(r":[^{}]*p\}", w.shape.derived()) is not None)


@prop("C21")
def c21(rep):
    """Inputs whose types lack what the attributes promise (Display, Error, 'static, ...) do not type-check."""
    reject_group(rep, "std", ["lifetimes", "types"], ["reject"])


@prop("C16")
def c16(rep):
    """Malformed, random and degenerate inputs: the macro answers each with code or an error, without panic and without end."""
    d = build.deps("std")
    rng = rep.ctx.rng
    n = rep.ctx.n
    groups = [
        ("items", robust.items()), ("types", robust.types()), ("attributes", robust.attributes(rng("attrs"), n(12000, 200000))),
        ("arguments", robust.arguments(rng("args"), n(3, 3), n(8000, 200000))), ("formats", robust.formats(rng("formats"), n(4, 5), n(15000, 300000))),
    ]
    for name, bads in groups:
        t = time.time()
        r = reject.run_bad(d, "c16_" + name, bads, {"nopanic"}, canary=True, chunk=400)
        record(rep, "malformed " + name, r, len(bads), t)
        rep.groups[-1].update(refused=r.paths, not_reached=r.failed_compile)
        if r.failed_compile > len(bads) // 20:
            raise build.BuildError("family %s: the macro was not reached with %d of %d inputs" % (name, r.failed_compile, len(bads)))
    reject_group(rep, "std", REJECTS, ["nopanic"])
    reject_group(rep, "full", ["attributes"], ["nopanic"])


@prop("C17", "other")
def c17(rep):
    """Everything the bodies of both crates call, refer to, cast or keep in statics, against what could make two expansions differ."""
    for kind in ("std", "nostd"):
        d = build.deps(kind)
        for crate in ("thiserror_impl", "thiserror"):
            f = audit.load(d.facts[crate])
            bad, n = audit.effects(f)
            rule(rep, kind, crate, f, "nothing in the crate depends on the environment, files, clock, threads, addresses, hash order or state kept between expansions", n, bad)


@prop("C24", "other")
def c24(rep):
    """No unsafe code in the crates, nothing documented but the derive, helper traits nobody else can implement."""
    for kind in ("std", "nostd"):
        d = build.deps(kind)
        for crate in ("thiserror_impl", "thiserror"):
            f = audit.load(d.facts[crate])
            rule(rep, kind, crate, f, "no unsafe code", len(f["fns"]) + len(f["statics"]), audit.unsafe_code(f))
        f = audit.load(d.facts["thiserror"])
        rule(rep, kind, "thiserror", f, "nothing public is documented but the derive macro", len(f["public"]), audit.surface(f))
        rule(rep, kind, "thiserror", f, "the derive macro is exported", 1, [] if audit.derive_exported(f) else [("", "", "thiserror::Error is no longer the derive macro")])
    bads = audit.sealed()
    t = time.time()
    record(rep, "helper traits cannot be implemented elsewhere", reject.run_bad(build.deps("std"), "c24_sealed", bads, {"reject"}), len(bads), t)


@prop("C23")
def c23(rep):
    """The compiler's recursion warning on exactly the messages that print the error itself through Display."""
    ws = recursion.subjects()
    for kind, ed in (("std", "2021"), ("std", "2018"), ("std", "2024"), ("full", "2021"), ("nostd", "2021")):
        t = time.time()
        record(rep, "messages that print the error itself [%s, edition %s]" % (kind, ed), recursion.run(build.deps(kind), "c23_%s_%s" % (kind, ed), ws, ed), len(ws), t)


@prop("C25")
def c25(rep):
    """The same comparison with crates of the other editions."""
    for ed in ("2018", "2024"):
        compare_group(rep, "std", ROLES + MESSAGES + ARGS + GENERICS + MACRO + SURROUND + ["cross", "wide", "harvest_cross"] + (["harvest_names"] if rep.ctx.thorough else []),
                      ["display", "source", "provide", "from", "preds", "impls"], edition=ed, keep=plain.fits(ed))


@prop("C26")
def c26(rep):
    """`fmt = function`: one call of that function with the fields in order and the formatter, and no bounds."""
    compare_group(rep, "std", ALL, ["display", "preds"], keep=lambda w: any(isinstance(b.eff, FmtPath) for b in w.shape.bodies))
    compare_group(rep, "full", ["functions", "enum_level"], ["display", "preds"], keep=lambda w: any(isinstance(b.eff, FmtPath) for b in w.shape.bodies))


@prop("C27")
def c27(rep):
    """The public interface of a derived type is the one of hand-written impls, without any item of thiserror in it."""
    compare_group(rep, "std", ALL, ["impls", "items", "preds", "api"])


@prop("C28")
def c28(rep):
    """Attributes of other tools and macros, however they are called, make no difference."""
    compare_group(rep, "std", ["foreign", "cross"], ["display", "source", "provide", "from", "preds", "impls"])
    compare_group(rep, "std", ["foreign"], ["display", "source", "provide", "from", "preds", "impls"], edition="2018")
    compare_group(rep, "full", ["foreign"], ["display", "source", "provide", "from", "preds", "impls"])


def rule(rep, kind, crate, facts, text, n, bad):
    rep.rules.append({"rule": text, "crate": crate, "configuration": kind, "functions": len(facts["fns"]), "instances": n, "violations": len(bad)})
    for fn, loc, what in bad:
        where = "%s %s" % (fn, loc) if fn else loc
        rep.findings.append(Finding("%s/%s/%s/%s" % (kind, crate, fn, re.sub(r"\s+", "_", what)[:160]), "%s: %s, in crate %s" % (where.strip() or crate, what, crate), "// rule: %s\n// at %s" % (text, where)))


# ------------------------------------------------------------------ running

def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\w+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def run(pid, tier, seed):
    t0 = time.time()
    fn, level = PROPS[pid]
    rep = Report(pid, Ctx(seed, tier))
    os.makedirs(EVID, exist_ok=True)
    try:
        fn(rep)
    except build.BuildError as e:
        print("error: %s: %s" % (pid, e))
        return 3
    keys = {}
    for f in rep.findings:
        keys.setdefault(f.key, f)
    kn = {k: d for p, k, d in known() if p == pid}
    fresh = [f for k, f in keys.items() if k not in kn]
    for k, d in kn.items():
        if k in keys:
            print("KNOWN-FINDING: property=%s %s" % (pid, d))
    doc = (fn.__doc__ or "").strip()
    cov = {
        "programs": rep.programs,
        "disagreements_checked": rep.compared,
        "paths": rep.paths,
        "groups": rep.groups,
        "samples": rep.samples[:6],
    }
    if rep.rules:
        cov["rules"] = rep.rules
        cov["obligations"] = sum(r.get("instances", 0) for r in rep.rules)
        cov["discharged"] = cov["obligations"] - sum(r.get("violations", 0) for r in rep.rules)
    cov["explanation"] = doc or pid
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not fresh:
        print("%s: held on %d analysed inputs (%d bodies or verdicts, %d paths, %d rule instances), %.1f s" % (
            pid, rep.programs, rep.compared, rep.paths, cov.get("obligations", 0), time.time() - t0))
        return 0
    rd = os.path.join(EVID, "replay")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, pid + ".txt")
    with open(path, "w") as f:
        for x in fresh[:40]:
            f.write("== %s\n%s\n%s\n\n" % (x.key, x.text, x.replay))
    for x in fresh[:5]:
        print("  %s\n      %s" % (x.key, x.text[:1200]))
    if len(fresh) > 5:
        print("  ... and %d more" % (len(fresh) - 5))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


ASSUME = [
    "the pinned nightly compiler type-checks and lowers to MIR faithfully; the summariser in driver/sum.rs is trusted",
    "the reference impls in vt/model.py state the documented semantics",
    "inputs outside the enumerated families are covered only as far as the macro treats them alike",
]


def main(argv):
    if argv[:1] == ["--setup"]:
        build.driver()
        for k in ("std", "full", "nostd"):
            build.deps(k)
        return 0
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    try:
        return run(pid, tier, seed)
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 4
