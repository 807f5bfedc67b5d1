"""Rules over the crates' own bodies: what an expansion may depend on, and what the crates may contain."""
import json, re
from .reject import Bad

ITERS = re.compile(r"\bhash_(?:map|set)::(?:Iter|IterMut|Keys|Values|ValuesMut|IntoKeys|IntoValues|IntoIter|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b")
HASHTY = re.compile(r"\bHash(?:Map|Set)<")

EFFECTS = [
    ("environment", re.compile(r"^(std|core|alloc)::env::|^proc_macro::tracked_?env|^proc_macro::tracked::env")),
    ("file system", re.compile(r"^std::fs::|^std::path::(Path|PathBuf)::(exists|is_file|is_dir|metadata|read_dir|canonicalize|symlink_metadata|try_exists)|^std::path::.*::(exists|is_file|is_dir|metadata|read_dir|canonicalize|try_exists)$|^proc_macro::tracked_?path|^proc_macro::tracked::path")),
    ("network", re.compile(r"^std::net::|^std::os::unix::net::")),
    ("process", re.compile(r"^std::process::(?!abort)|^std::os::")),
    ("clock", re.compile(r"^std::time::|^core::time::.*::now")),
    ("thread or thread-local state", re.compile(r"^std::thread::")),
    ("standard streams", re.compile(r"^std::io::(stdin|stdout|stderr|_print|_eprint|stdio)|^std::(print|eprint)")),
    ("random hash state", re.compile(r"RandomState::new|RandomState as .*BuildHasher|BuildHasher::(build_hasher|hash_one)|^std::random|^core::random|DefaultHasher::finish$|^std::hash::random::")),
    ("location of the input in its file", re.compile(r"^(proc_macro2?|proc_macro::bridge|proc_macro2::fallback|proc_macro2::wrapper)::Span::(start|end|byte_range|source_text|file|local_file|line|column|source_file|source)$|^(proc_macro2?)::LineColumn|::SpanLocation::")),
    ("address of an object", re.compile(r"::Argument::<'_>::new_pointer|^std::fmt::Pointer::fmt|::expose_provenance$|ptr::.*::addr$")),
]


def load(path):
    return json.load(open(path))


def effects(facts):
    """[(fn path, loc, what)]: everything in the crate's bodies on which the output of an expansion must not depend."""
    out = []
    n = 0
    for f in facts["fns"]:
        for c in f["calls"]:
            n += 1
            for what, rx in EFFECTS:
                if rx.search(c["path"]) or (c["resolved"] and rx.search(c["resolved"])):
                    out.append((f["path"], c["loc"], "calls %s (%s)" % (c["resolved"] or c["path"], what)))
            if c["path"].endswith("::new_debug") and re.search(r"\bSpan>$", c["full"]):
                out.append((f["path"], c["loc"], "prints where the input lies in its file"))
            # A hash collection given to something that visits it in its own order.
            if re.search(r"IntoIterator>?::into_iter$|Extend>?::extend$|Argument::<'_>::new_debug|FromIterator>?::from_iter$", c["path"]) and HASHTY.search(c["full"]):
                m = re.match(r"<(.*?) as ", c["full"])
                selfty = m.group(1) if m else c["full"]
                if "into_iter" in c["path"] or "new_debug" in c["path"] or not HASHTY.match(selfty.replace("std::collections::", "")):
                    out.append((f["path"], c["loc"], "visits a hash collection in an order that differs from run to run: %s" % c["full"]))
        for name in f["named"]:
            n += 1
            for what, rx in EFFECTS:
                if rx.search(name):
                    if not any(x[0] == f["path"] and name in x[2] for x in out):
                        out.append((f["path"], f["loc"], "refers to %s (%s)" % (name, what)))
        for t in f["types"]:
            n += 1
            if ITERS.search(t):
                out.append((f["path"], f["loc"], "visits a hash collection in an order that differs from run to run: a value of type %s" % t))
        for c in f["casts"]:
            n += 1
            if "ExposeProvenance" in c["kind"] and "With" not in c["kind"]:
                out.append((f["path"], c["loc"], "turns an address into an integer"))
    for s in facts["statics"]:
        n += 1
        if "proc_macro::bridge" in s["type"]:
            continue
        if s["mutable"] or not s["freeze"] or "LocalKey" in s["type"]:
            out.append((s["path"], s["loc"], "state that survives from one expansion to the next: a static of type %s" % s["type"]))
    for l in facts["built"]:
        out.append(("", l, "depends on option_env!"))
    seen, u = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            u.append(x)
    return u, n


def unsafe_code(facts):
    out = []
    for u in facts["unsafe"]:
        # (the standard derives' own marker impls)
        if u["kind"] == "unsafe impl" and set(u["macros"]) & {"Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Debug", "Default"}:
            continue
        x = ("", u["loc"], "%s%s" % (u["kind"], " from " + ", ".join(u["macros"]) if u["macros"] else ""))
        if x not in out:
            out.append(x)
    return out


def surface(facts):
    """Documented public items other than the derive macro."""
    return [("", "", "%s %s is public and documented" % (p["kind"], p["name"])) for p in facts["public"]
            if not p["hidden"] and not (p["name"] == "Error" and p["kind"].startswith("Macro"))]


def derive_exported(facts):
    return any(p["name"] == "Error" and p["kind"].startswith("Macro") and not p["hidden"] for p in facts["public"])


def sealed():
    """Programs that implement the runtime's helper traits for a type of their own."""
    out = []
    ty = "#[derive(Debug)] pub struct Mine; impl std::fmt::Display for Mine { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } } impl std::error::Error for Mine {}\n"
    for own, t in ((ty, "Mine"), ("pub struct Plain;", "Plain"), ("pub struct Gen<T>(T);", "Gen<i32>")):
        for name, impl in (
            ("AsDynError", "impl<'a> ::thiserror::__private::AsDynError<'a> for %s { fn as_dyn_error(&self) -> &(dyn ::core::error::Error + 'a) { loop {} } }"),
            ("AsDisplay", "impl<'a> ::thiserror::__private::AsDisplay<'a> for %s { type Target = i32; fn as_display(&'a self) -> i32 { loop {} } }"),
            ("ThiserrorProvide", "impl ::thiserror::__private::ThiserrorProvide for %s { fn thiserror_provide<'a>(&'a self, _: &mut ::core::error::Request<'a>) { loop {} } }"),
        ):
            out.append(Bad("sealed/%s/%s" % (name, t), own + impl % t, macro=False, fallback=False, rule="helper traits are sealed"))
            out.append(Bad("sealed/%s/&%s" % (name, t), own + impl % ("&'static " + t), macro=False, fallback=False, rule="helper traits are sealed"))
            out.append(Bad("sealed/%s/%s blanket" % (name, t), own + "pub trait Any2 {} impl Any2 for %s {}" % t + impl.replace("impl<'a>", "impl<'a, T: Any2>").replace("impl ", "impl<T: Any2> ", 1) % "T", macro=False, fallback=False, rule="helper traits are sealed"))
    return out
