"""Names that are almost the ones the macro recognises, and modules that hold them."""
import re


def near(n):
    """Names that are almost this one."""
    snake = "".join("_" + c.lower() if c.isupper() else c for c in n).strip("_")
    out = [n.lower(), n.upper(), n[0].swapcase() + n[1:], "X" + n, "My" + n, n + "X", n + "s", n + "2", "_" + n, n + "_", "__" + n, n + "__", n + n, n[:-1], n[1:], n[::-1],
           snake, snake + "_", n + "Error", "Error" + n, "Std" + n, n + "Like", n[0] + n, n + n[-1], n[:len(n) // 2], n[len(n) // 2:], n[:3] + "_" + n[3:], "\u00e9" + n, n + "\u00e9"]
    out += [n[:i] + n[i].swapcase() + n[i + 1:] for i in range(1, len(n))]
    return [x for x in dict.fromkeys(out) if x != n and re.fullmatch(r"(?!\d)\w+", x) and x not in KEYWORDS]


KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union Error".split())
NEAR = list(dict.fromkeys(x for n in ("Backtrace", "Option", "Box", "Arc", "Path", "PathBuf") for x in near(n) if x not in ("Backtraces", "Optional", "Path", "PathBuf", "Box", "Arc")))
NEARG = list(dict.fromkeys(x for n in ("Option", "Box") for x in near(n)))
NEAR_SUP = "pub mod n { %s } pub mod g { %s }" % (
    " ".join("#[derive(Debug)] pub struct %s(pub i32); e!([] %s);" % (x, x) for x in NEAR),
    " ".join("#[derive(Debug)] pub struct %s<T>(pub T); e!([T: core::fmt::Debug] %s<T>);" % (x, x) for x in NEARG))
DEEP_SUP = "pub mod q { pub use crate::sup::*; %s }" % (
    " ".join("pub mod q%d { pub use crate::sup::*;" % i for i in range(8)) + "}" * 8)
# modules that are called as the recognised types
MODS_SUP = "pub mod m { %s }" % " ".join("pub mod %s { pub use crate::sup::{E0, E1, G}; pub use std::backtrace::Backtrace; pub use core::option::Option; pub use std::path::PathBuf; }" % m
                                        for m in ("Backtrace", "Option", "Box", "Error", "source", "PathBuf", "T", "std", "core", "option"))
