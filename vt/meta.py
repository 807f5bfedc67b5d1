"""The properties, their anchors and how each is decided: the source of properties.jsonl and MANIFEST.json."""

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="translation_validation", observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, level=level, observe=list(observe)))


TV = "translation validation: path summaries of the compiled derive output (MIR) against independent reference impls, over enumerated inputs"
NOTE = ("Every generated method body of every enumerated input is reduced, from the compiler's MIR, to all its acyclic paths (conditions, ordered calls, result) and compared "
        "with a reference impl written from the documentation; nothing is executed except the macro expansion itself. Complete per input (all run-time values); inputs beyond the enumerated "
        "families are covered only as far as the macro treats them alike. Trusts the pinned nightly front end, the summariser (driver/) and the reference model (vt/model.py).")

prop("C01", "Display prints each error message exactly as written",
     "Formatting an error with Display produces the literal text of its `#[error(\"...\")]` message, with each placeholder replaced by the named or numbered field formatted through the trait, flags, width and precision written there, and nothing else. "
     "In an enum each variant prints its own message. A failure of the underlying writer is returned unchanged.",
     ["inputs", "programs"], "All messages (literal text, escapes, placeholders, specs), all field counts, names and types, all variants, all field values.",
     "The tests format a few dozen messages with particular values; the rewriting of format strings depends on name, position, spec, order and repetition of placeholders, whose combinations are unbounded.",
     ["impl/src/fmt.rs", "impl/src/expand.rs", "impl/src/attr.rs", "impl/src/unraw.rs", "src/display.rs", "src/var.rs"],
     [("expansion of format placeholders", "impl/src/fmt.rs"), ("Display impl and match arms", "impl/src/expand.rs"), ("emission of write_str / write!", "impl/src/attr.rs")], TV, NOTE, observe=["<T as Display>::fmt"])
prop("C02", "Format arguments mean what they say, and .field refers to the field",
     "Positional and named arguments after the message are evaluated as ordinary format arguments, each `.field` or `.0` shorthand at the start of an operand standing for that field of the value being printed (by reference), everywhere else in an expression a dot keeping its usual meaning. "
     "Fields mentioned only in the arguments need no placeholder, and explicit arguments take precedence over fields of the same name. "
     "This does not depend on which features of the parser library other crates enable.",
     ["inputs", "programs", "configurations"], "All argument expressions (token sequences), positions, names; with and without the full expression parser.",
     "Whether a dot begins a shorthand is decided by scanning arbitrary Rust expressions token by token; tests contain about ten expressions, in one parser configuration.",
     ["impl/src/fmt.rs", "impl/src/scan_expr.rs", "impl/src/attr.rs"],
     [("shorthand substitution", "impl/src/attr.rs parse_token_expr"), ("expression scanner", "impl/src/scan_expr.rs"), ("explicit named arguments", "impl/src/fmt.rs")], TV, NOTE + " Known finding: a closure or pattern that binds the same name captures the shorthand.", observe=["<T as Display>::fmt"])
prop("C03", "source() returns exactly the documented source field",
     "source() returns the field marked `#[source]` or `#[from]`, otherwise the field called `source`, as the error it holds; a `None` in an optional source gives `None`; every other struct or variant returns `None`. "
     "Other fields, their order and their types never influence the choice.",
     ["inputs", "programs"], "All structs and enums: attributes, names, types and order of fields, in every variant; all field values.",
     "The choice depends on the whole combination of attributes, names and types in each variant; tests cover some twenty.",
     ["impl/src/prop.rs", "impl/src/expand.rs", "src/aserror.rs"],
     [("source_field / from_field / source_member", "impl/src/prop.rs"), ("source_body and source arms", "impl/src/expand.rs")], TV, NOTE, observe=["<T as Error>::source"])
prop("C04", "#[from] gives exactly one faithful From conversion",
     "Each `#[from]` field, and no other, yields an `impl From<FieldType>` that builds that struct or variant with the given value in that field; an optional source takes the inner type and is wrapped in `Some`. "
     "A backtrace field beside it is captured at that moment (wrapped as its type requires); the conversion does nothing else.",
     ["inputs", "programs"], "All structs and enums with #[from] in any variant, all field orders, names and types; all source values.",
     "Tests exercise a few shapes with one value each, and check little about backtrace initialisation.",
     ["impl/src/expand.rs", "impl/src/prop.rs", "impl/src/ast.rs"],
     [("from_initializer", "impl/src/expand.rs"), ("from impls of structs and of each variant", "impl/src/expand.rs"), ("type_parameter_of_option", "impl/src/expand.rs")], TV, NOTE, observe=["<T as From<_>>::from"])
prop("C05", "Transparent errors are indistinguishable from what they wrap",
     "An error or variant marked `#[error(transparent)]` forwards Display, with every formatting flag, to its single field, and its source() is that field's own source(); what it provides is what the field provides. "
     "This holds for each transparent variant of an enum independently of the other variants.",
     ["inputs", "programs"], "All transparent structs and variants, all field types (including boxed errors and generics), all formatter options and values.",
     "Tests look at two or three transparent types, without flags, and only at equal text.",
     ["impl/src/expand.rs", "impl/src/prop.rs", "impl/src/attr.rs"],
     [("transparent handling in impl_struct / impl_enum", "impl/src/expand.rs")], TV, NOTE, observe=["<T as Display>::fmt", "<T as Error>::source"])
prop("C06", "provide() offers the right backtrace and forwards to the source",
     "Where the compiler supports it, an error with a backtrace field (marked, or recognised by its type) provides a reference to it when requested, and an error whose source is itself the backtrace field forwards the request to that source. "
     "A source's own backtrace takes precedence by being asked first; an absent optional backtrace or source contributes nothing, and errors without backtrace provide nothing.",
     ["inputs", "programs", "configurations"], "All structs and enums: combinations of source, from and backtrace attributes, names, optional and shared types; all values.",
     "Nightly only; tests have a dozen shapes and never observe the order of provision.",
     ["impl/src/expand.rs", "impl/src/prop.rs", "src/provide.rs"],
     [("provide method and arms", "impl/src/expand.rs"), ("backtrace_field / type_is_backtrace", "impl/src/prop.rs")], TV, NOTE + " Where the documentation leaves the shape of forwarding open, the reference has alternatives.", observe=["<T as Error>::provide"])
prop("C07", "Inputs that break a documented rule are refused by the macro",
     "An input that breaks a documented rule (two messages, sources, backtraces or froms; `#[from]` beside other fields; a transparent error without exactly one field or with `#[source]`; misplaced, malformed or mixed attributes; variants without message; unions) is refused with an error from the macro itself. "
     "It is never silently accepted with one of the attributes ignored.",
     ["inputs", "programs"], "All combinations of attributes on types, variants and fields that violate a rule, in every position.",
     "The ui tests contain one example per rule; a rule that is checked only in some positions passes them.",
     ["impl/src/valid.rs", "impl/src/attr.rs", "impl/src/prop.rs"],
     [("validate", "impl/src/valid.rs"), ("attr::get and parse_error_attribute", "impl/src/attr.rs")],
     "compile-fail witnesses over enumerated rule violations, judged on the compiler's diagnostics", "Every enumerated violation is compiled and must fail with an error the macro itself raised. Exhaustive over the attribute combinations of up to three fields and enumerated placements; other inputs by analogy only.", observe=["compiler diagnostics"])
prop("C08", "A refused input still implements Error and Display",
     "When the macro refuses an input it reports its own error and still supplies Error and Display for the type, generics and where-clauses included. "
     "Uses of the type elsewhere therefore cause no follow-up errors: one mistake gives one error.",
     ["inputs", "programs"], "All refused inputs, generic or not, with uses of the type elsewhere.",
     "Ui tests compare the text of some messages for non-generic types; no test uses a refused type elsewhere.",
     ["impl/src/fallback.rs", "impl/src/expand.rs"],
     [("fallback::expand", "impl/src/fallback.rs"), ("derive's error arm", "impl/src/expand.rs")],
     "compile-fail witnesses: each refused input is used as an Error in another item, and the compiler must report the macro's error only", "Judged on the compiler's diagnostics for every enumerated refused input.", observe=["compiler diagnostics"])
prop("C09", "Generic errors get exactly the bounds their messages and sources need",
     "Each generated impl for a generic type keeps its parameters, bounds and where-clauses, and adds exactly the bounds needed: the formatting traits used on fields whose type mentions a type parameter, and `Error + 'static` (or the equivalent for boxed and optional sources) for a generic source. "
     "No bound is demanded for fields that are not printed or not the source, and none is missing.",
     ["inputs", "programs"], "All generic headers, field types mentioning parameters in any position, placeholders, traits and sources.",
     "A missing bound shows only for particular instantiations, a superfluous one only when a user needs the impl without it; tests have a handful of generic types.",
     ["impl/src/generics.rs", "impl/src/expand.rs", "impl/src/fmt.rs"],
     [("InferredBounds / ParamsInScope", "impl/src/generics.rs"), ("implied bounds of placeholders", "impl/src/fmt.rs")], "comparison of the type-checked where-clauses and headers of the generated impls with those of reference impls, over enumerated generic inputs", NOTE, observe=["predicates of the impls"])
prop("C10", "The expansion means the same in every scope",
     "What the derive generates does not depend on names, modules, macros, traits, methods or a missing prelude in the surrounding scope, nor on how fields, parameters and lifetimes are called. "
     "It neither fails to compile nor calls or names something of the user's by accident.",
     ["inputs", "programs"], "All surrounding scopes (shadowing types, modules, macros, extension traits, inherent methods) and names of fields, arguments, parameters and lifetimes.",
     "One test shadows a few names; each identifier in the generated code can be captured separately.",
     ["impl/src/expand.rs", "impl/src/fmt.rs", "impl/src/attr.rs", "src/lib.rs"],
     [("absolute paths and call syntax in generated code", "impl/src/expand.rs"), ("names of generated bindings", "impl/src/fmt.rs")], TV, NOTE + " Excluded as inherent: scopes with a unit struct, const or static of the same name as a generated binding, fields called `__formatter`, a lifetime called `'_request`, and user methods named as the runtime's helpers.")
prop("C11", "The derive adds only the documented trait impls, marked as derived",
     "The expansion consists of an Error impl, at most one Display impl, and one From impl per `#[from]`, each marked as automatically derived; it defines no other visible item and overrides no other method. "
     "A type without messages gets no Display, so that the user's own does not conflict.",
     ["inputs", "programs"], "All accepted inputs.",
     "Tests use what the macro generates but cannot notice what it generates beyond that.",
     ["impl/src/expand.rs"], [("impl_struct / impl_enum", "impl/src/expand.rs")], "query over the type-checked expansion: all items that originate from the derive, for each enumerated input", NOTE)
prop("C12", "Variants inherit the enum's message; Display exists only if asked for",
     "A message on the enum itself applies to exactly the variants without one of their own, including enum-level transparent, and each variant's own message wins. "
     "Display is generated when there is a message anywhere, and never otherwise.",
     ["inputs", "programs"], "All enums, mixing own, inherited, transparent and format-function messages over any number of variants.",
     "One or two tests have enum-level messages.",
     ["impl/src/ast.rs", "impl/src/prop.rs", "impl/src/expand.rs", "impl/src/attr.rs"],
     [("inheriting of attributes", "impl/src/ast.rs Enum::from_syn"), ("Enum::has_display", "impl/src/prop.rs")], TV, NOTE)
prop("C14", "Types assembled by macro_rules and raw identifiers behave as written out",
     "Deriving on a type whose name, fields, types, attributes or messages come through macro_rules fragments, or whose names are raw identifiers, gives the same impls as the same type written out by hand. "
     "Fragments of one expression or type stay one unit.",
     ["inputs", "programs"], "All fragment kinds in all positions, nested to any depth, and all raw identifiers.",
     "Invisible groups and hygiene marks appear only in macro-generated inputs, of which the tests have four.",
     ["impl/src/attr.rs", "impl/src/fmt.rs", "impl/src/unraw.rs", "impl/src/expand.rs", "impl/src/prop.rs"],
     [("unraw identifiers", "impl/src/unraw.rs"), ("spans and hygiene of generated identifiers", "impl/src/expand.rs")], TV, NOTE)
prop("C18", "Every accepted kind of source yields the very error it holds",
     "A source held as a concrete error, `Option`, `Box`, `Arc`, reference or a boxed trait object with or without `Send`, `Sync` and `UnwindSafe` is returned by source() as the same error object, so that downcasting finds the original type. "
     "It is never wrapped, copied or replaced by its container when the container is not itself the error.",
     ["inputs", "programs"], "All accepted source field types and their nesting, generic or not.",
     "Downcasting is tested for two types; which impl a method call resolves to depends on the exact field type.",
     ["src/aserror.rs", "impl/src/expand.rs"], [("AsDynError impls", "src/aserror.rs"), ("emission of as_dyn_error", "impl/src/expand.rs")], TV, NOTE, observe=["<T as Error>::source"])
prop("C19", "Path fields print through Path::display, all others through Display",
     "A field of type Path or PathBuf (also behind references or smart pointers that display it) printed with `{}` shows its path display, with the formatter options written; every other type prints through its own Display. "
     "No bound or conversion is demanded of such fields.",
     ["inputs", "programs"], "All field types and placeholders, in plain, named-argument and shorthand use.",
     "Two tests print paths.",
     ["src/display.rs", "impl/src/fmt.rs", "impl/src/attr.rs"], [("AsDisplay impls", "src/display.rs"), ("bonus display bindings", "impl/src/fmt.rs")], TV, NOTE, observe=["<T as Display>::fmt"])
prop("C20", "{:p} prints the pointer held by the field",
     "A field printed with `{:p}` prints the address it points to, not its own address; the other uses of the same field in the same message are unaffected. "
     "Only the Pointer trait of the field's type is required.",
     ["inputs", "programs"], "All pointer-like field types and all messages mixing pointer and other placeholders.",
     "One test prints one pointer.",
     ["src/var.rs", "impl/src/fmt.rs", "impl/src/attr.rs"], [("Var", "src/var.rs"), ("pointer bindings", "impl/src/attr.rs")], TV, NOTE, observe=["<T as Display>::fmt"])
prop("C21", "What an attribute promises is enforced by the type checker",
     "An input does not compile when a printed field lacks the trait its placeholder uses, a source or from field is not an error or not 'static, a backtrace field is not a backtrace, a format string names what does not exist, the same source type is converted twice, or the type lacks Debug or Display. "
     "The derive never works around such a lack.",
     ["inputs", "programs"], "All field types and placeholders lacking the required trait.",
     "Ui tests contain one case for a few of these.",
     ["impl/src/expand.rs", "impl/src/fmt.rs", "src/aserror.rs"], [("trait bounds of runtime helpers", "src/aserror.rs"), ("static assertions and spans", "impl/src/expand.rs")],
     "compile-fail witnesses over enumerated ill-typed inputs, judged on the compiler's diagnostics", "Each enumerated input must be refused by the compiler.", observe=["compiler diagnostics"])

prop("C13", "Without std the derive and its runtime need only core",
     "With the `std` feature off, thiserror links core alone and the derive generates the same impls, which compile in `#![no_std]` crates; with it on, the derive still works in `#![no_std]` crates. "
     "Only what inherently needs std (paths, backtraces) is missing.",
     ["inputs", "configurations"], "All accepted inputs that need no std, in no_std and std crates, with either feature setting.",
     "The no_std test compiles one enum.", ["src/lib.rs", "src/display.rs", "src/aserror.rs", "impl/src/expand.rs"],
     [("cfg(feature = std) items", "src/lib.rs"), ("core paths in generated code", "impl/src/expand.rs")], TV + "; type-checking of witnesses in no_std crates; query over the runtime's linked crates", NOTE)
prop("C15", "The expansion draws no warnings of its own",
     "Deriving adds no compiler or clippy warning (deprecation, naming, unused items, elided lifetimes, redundant code, ...) to what the type draws by itself, whatever its names, attributes and visibility, in every edition. "
     "It contains no unsafe code, so it compiles under forbid(unsafe_code).",
     ["inputs", "configurations"], "All accepted inputs, all lints of the compiler and the default and pedantic ones of clippy.",
     "Tests enable three or four lints on one or two types.", ["impl/src/expand.rs", "impl/src/attr.rs", "impl/src/unraw.rs"],
     [("allow attributes on generated impls", "impl/src/expand.rs"), ("names of generated bindings", "impl/src/fmt.rs")], "lint comparison: every lint of the compiler and of clippy on the derived type against the same type without the derive, over enumerated inputs",
     "Enumerates attributes, names and visibilities per role; a lint that needs another combination is missed.", observe=["compiler diagnostics"])
prop("C16", "No input makes the macro panic or run without end",
     "Whatever tokens follow the derive (malformed format strings, arguments and attributes, unusual types, generics and sizes), the macro terminates and answers with code or with compile errors. "
     "It never panics and never loops.",
     ["inputs"], "All token sequences the compiler hands to a derive.", "Tests contain only a few dozen malformed inputs.",
     ["impl/src/fmt.rs", "impl/src/attr.rs", "impl/src/scan_expr.rs", "impl/src/prop.rs", "impl/src/unraw.rs"], [("parsers of format strings, identifiers and expressions", "impl/src/fmt.rs"), ("parsers of attributes", "impl/src/attr.rs")],
     "compile-fail witnesses over exhaustively enumerated short and randomly generated longer malformed inputs, judged on the compiler's diagnostics",
     "All format strings of up to four symbols after a brace over a twelve-letter alphabet, all argument sequences of up to three tokens, all attribute shapes in all positions; longer ones are sampled.", observe=["compiler diagnostics"])
prop("C17", "The expansion depends on nothing but its input",
     "Deriving the same input again gives the same output: the macro reads no environment variable, file, clock, thread or address, keeps no state between expansions and lets no hash order show, nor does the runtime. "
     "Builds are therefore reproducible.",
     ["programs", "histories"], "All inputs, build environments and orders of expansion.", "Differences show only between builds or between processes.", ["impl/src/*.rs", "src/*.rs"],
     [("collections used for ordering and lookup", "impl/src/generics.rs"), ("all function bodies", "impl/src/lib.rs")], "effect analysis: query over the MIR of every body of both crates (calls, function references, casts, types of locals, statics) for nondeterminism and hidden state",
     "Complete for what the two crates do themselves; syn, quote, proc-macro2 and std are trusted behind their interfaces.", level="other", observe=["the crates' MIR"])
prop("C22", "On compilers without generic member access only provide() is missing",
     "Where the unstable `error_generic_member_access` feature is unavailable or disabled, the derive generates the same Display, source and From impls without `provide`, and works on the stable toolchain in editions 2018, 2021 and 2024. "
     "The runtime's unstable parts are then absent.",
     ["inputs", "configurations"], "All accepted inputs without a backtrace field, on stable and unstable compilers.", "Each run of the tests covers the configuration of one compiler only.", ["build.rs", "src/lib.rs", "src/provide.rs", "impl/src/expand.rs"],
     [("cfg error_generic_member_access", "build.rs"), ("provide emission", "impl/src/expand.rs")], TV + ", built as for such compilers; type-checking with the stable toolchain", NOTE)
prop("C23", "A message that prints itself is warned about, and works where written",
     "A message containing `{self}` through Display, on a struct, a variant or the enum, compiles and draws the compiler's unconditional_recursion warning at that message. "
     "No other message draws it (`{self:?}`, `{{self}}`, fields with similar names).",
     ["inputs"], "All messages, alone and among those of other variants.", "One test has one unit struct.", ["impl/src/fmt.rs", "impl/src/attr.rs"], [("infinite_recursive", "impl/src/fmt.rs"), ("emission of the recursive function", "impl/src/attr.rs")],
     "compiler diagnostics (MIR recursion lint) of the expansion against the expected lines, over enumerated messages", "Exhaustive over the enumerated forms of `self` placeholders and their surroundings.", observe=["compiler diagnostics"])
prop("C24", "The crates contain no unsafe code and expose nothing but the derive",
     "Neither crate contains unsafe code; the only documented public item of thiserror is the derive macro; and the helper traits behind it cannot be implemented by others, so they may change.",
     ["programs"], "All items of both crates, in both feature settings.", "No test looks at what else is public.", ["src/lib.rs", "src/aserror.rs", "src/display.rs", "src/provide.rs"], [("doc(hidden) __private", "src/lib.rs"), ("Sealed", "src/aserror.rs")],
     "query over HIR and module exports of both crates; compile-fail witnesses for sealed traits", "Complete for the built configurations.", level="other", observe=["the crates' HIR"])
prop("C25", "Editions 2018 and 2024 get the same impls as 2021",
     "The derive gives the same impls whatever the edition of the crate that uses it, from 2018 to 2024, including fields whose raw names are keywords in some editions only.",
     ["inputs", "configurations"], "All accepted inputs, in each edition.", "The tests are compiled in one edition.", ["impl/src/unraw.rs", "impl/src/expand.rs", "impl/src/attr.rs"], [("raw identifiers", "impl/src/unraw.rs"), ("spans of generated code", "impl/src/expand.rs")], TV, NOTE)

prop("C26", "fmt = function is exactly one call with the fields in order",
     "`#[error(fmt = path)]` on a variant or enum makes Display call the function at that path once, with a reference to each field in declaration order and then the formatter, and return its result. "
     "The path means what it means where it is written, whatever the fields are called, the fields coerce as in any call, and no bound is inferred from them.",
     ["inputs", "programs"], "All paths and all variants: number, order, names, types and roles of fields; on variants, on the enum, beside other messages; all field values.",
     "The tests have four functions, on fields whose names meet nothing else.",
     ["impl/src/expand.rs", "impl/src/attr.rs", "impl/src/ast.rs"],
     [("call of the fmt function", "impl/src/expand.rs impl_enum"), ("parsing of fmt = path", "impl/src/attr.rs"), ("inheritance by variants", "impl/src/ast.rs")], TV, NOTE, observe=["<T as Display>::fmt"])
prop("C27", "thiserror does not appear in the public API of what derives it",
     "A type that derives Error has the public interface it would have with hand-written impls: the same trait impls for the same types under the same conditions, and no item of thiserror in any header, bound or signature. "
     "Moving from hand-written impls to the derive or back is no breaking change.",
     ["inputs", "programs"], "All accepted inputs: generics, where-clauses, sources, messages.",
     "Tests use the impls; none looks at the conditions under which they exist.",
     ["impl/src/expand.rs", "impl/src/generics.rs", "src/lib.rs"],
     [("impl headers and where-clauses", "impl/src/expand.rs"), ("inferred bounds", "impl/src/generics.rs"), ("re-exports used by the expansion", "src/lib.rs __private")],
     "query over the type-checked impls (trait refs, predicates, generics, items) against hand-written ones, over enumerated inputs", NOTE, observe=["impl headers and predicates"])
prop("C28", "Attributes of other tools and macros make no difference",
     "Only the plain attributes `error`, `source`, `from` and `backtrace` mean something to the derive. Documentation, lints, cfg and tool attributes on the type, its variants and fields, even ones whose path ends in those names, change nothing in the generated impls.",
     ["inputs"], "All attributes in all places, beside or without thiserror's own.",
     "Tests hardly have attributes of others, and none that are called alike.",
     ["impl/src/attr.rs", "impl/src/ast.rs"],
     [("recognition of attributes", "impl/src/attr.rs get"), ("attributes of fields and variants", "impl/src/ast.rs")], TV, NOTE)

NOT_APPLICABLE = []


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, None)
    NOT_APPLICABLE.append((id, reason))


na("C30", "Deriving stays cheap",
   "Expanding the derive takes time and memory roughly linear in the size of the type, and the generated code compiles no slower than the impls written by hand. ",
   ["inputs"], "All inputs, by size.", "No test measures it.", ["impl/src/fmt.rs", "impl/src/expand.rs"], [("single passes over fields and messages", "impl/src/fmt.rs")],
   "a bound on running time quantifies over run-time quantities (allocation, token stream costs inside the compiler) that no static argument in reach can bound")
na("C31", "Diagnostics are worded and placed helpfully",
   "Each error the macro or its expansion causes points at the offending tokens and explains the mistake in terms of the user's source.",
   ["inputs"], "All refused inputs.", "The ui tests pin the wording of some thirty messages for one compiler version.", ["impl/src/valid.rs", "impl/src/attr.rs"], [("spans of errors", "impl/src/valid.rs")],
   "what is helpful is a judgement on wording and layout of diagnostics, not a property decidable from the source; that a refusal happens, and only once, is C07 and C08")
