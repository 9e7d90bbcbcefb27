import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Rendered message equals the format string with fields substituted",
"For every accepted error type whose message is a string, rendering a value as text gives exactly what the standard formatting macros give for that string when every `{field}` / `{N}` placeholder stands for that field of the value: literal text and `{{` `}}` escapes verbatim, each field formatted with the trait (Display, Debug, o, x, X, p, b, e, E) and with the fill, alignment, sign, `#`, `0`, width and precision written in its own placeholder. This holds for any number, order and repetition of placeholders, any field count and index, raw or Unicode field names, structs and enum variants alike, and in a plain `{field}` placeholder path-typed fields render as their lossy display. Formatter options of an enclosing placeholder that shows the error do not change its message.",
["inputs","programs"],"over all message strings of the std::fmt grammar and all field lists of the container the message sits on",
"The tests sample about 40 fixed strings; most combinations of trait, spec, escape, repetition and field position never occur in one test, and no test gives width/fill/precision to a field placeholder.",
["impl/src/fmt.rs","impl/src/attr.rs","impl/src/expand.rs","src/display.rs","src/var.rs","impl/src/unraw.rs"],
[("placeholder rewriting loop","impl/src/fmt.rs: Display::expand_shorthand"),("write! / write_str choice and bindings match","impl/src/attr.rs: ToTokens for Display"),("as_display / Var wrappers","src/display.rs, src/var.rs")],
["to_string()/format!() of a derived value"],None,
[("placeholder position","where the scanner stands in the message","impl/src/fmt.rs `read`"),("bindings","placeholder locals already emitted","impl/src/fmt.rs `bindings`")])

p("C02","Placeholder names resolve by one fixed priority, whatever the arguments are",
"In a message with extra arguments, a name in braces means the explicit `name = expr` argument if there is one, otherwise the field of that name, otherwise whatever an ordinary format string would capture from the surrounding scope; a number means the field of that index, unless the container has no unnamed field and then it means the extra positional argument. The meaning never depends on how complicated the argument expressions are (generics commas, closures, if/match/block chains, casts, ranges, associated-type equality and so on). Each argument is evaluated once, in the order written, however often it is shown. Mixing numbered placeholders with unnamed extra arguments on a tuple container is rejected at compile time rather than guessed.",
["inputs","programs"],"over all argument lists (named/unnamed mixes, any Rust expression as value) and all field lists",
"The tests use about ten argument lists; the argument splitter is a hand-written expression automaton with 19 states whose transitions are mostly never driven by a test.",
["impl/src/fmt.rs","impl/src/scan_expr.rs","impl/src/attr.rs"],
[("argument splitter","impl/src/fmt.rs: explicit_named_args"),("expression automaton","impl/src/scan_expr.rs: scan_expr"),("ambiguity check","impl/src/fmt.rs: expand_shorthand, numeric arm")],
["to_string() of a derived value","compile-time acceptance or the ambiguity diagnostic"],
"cfg(thiserror_verif): derive entry point callable in-process")

p("C03","Leading-dot field references work wherever an argument expression may start",
"In the extra arguments of a message, `.name` / `.N` at any place where an expression may start (after an operator including `..`, a comma, `;`, `:`, `=`, `=>`, a keyword such as if/match/while/return/in/break, at the start of a parenthesised, bracketed or braced group, at any nesting depth; not directly after an expression attribute, a label, `yield` or `&raw const`) denotes a reference to that field of the value. Every other dot keeps its Rust meaning: method calls, field accesses, tuple indexes such as `.0.1`, float literals and ranges evaluate as written.",
["inputs","programs"],"over all Rust expressions built from field references, operators, calls, blocks and control flow, at any depth",
"Tests use about twelve expressions; the rewriting is decided per token by a list of 22 preceding tokens, of which tests reach a handful.",
["impl/src/attr.rs"],
[("token rewriting","impl/src/attr.rs: parse_token_expr")],
["to_string() of a derived value"])

p("C04","Each enum variant renders with its own message, else the enum's default",
"Rendering an enum value uses the `#[error(...)]` attribute of the active variant if it has one (a message, `transparent`, or `fmt = path`, which is called with references to all fields of the variant in declaration order followed by the formatter) and otherwise the attribute written on the enum, interpreted against the fields of that variant. Text is derived for an enum exactly when the attributes provide one for every variant; if some variants have a message and another has neither its own nor a default, the enum is rejected at compile time. No variant's rendering is affected by the attributes or fields of another variant.",
["programs","inputs"],"over all enums: any number and order of variants, each with any attribute choice and field list, with or without an enum-level default",
"Tests have about eight enums, none mixing all four attribute kinds with a default; cross-variant interference needs particular combinations.",
["impl/src/ast.rs","impl/src/expand.rs","impl/src/prop.rs","impl/src/valid.rs"],
[("inheritance of the enum attribute","impl/src/ast.rs: Enum::from_syn"),("decision to derive Display","impl/src/prop.rs: Enum::has_display"),("match arms","impl/src/expand.rs: impl_enum display_impl")],
["to_string() of each variant","whether the type implements Display","compile-time rejection"])

p("C05","A transparent error is indistinguishable from the error it wraps",
"For a struct or variant declared `transparent`, rendering passes the caller's formatter (including width, fill, precision, sign, `#` flags) unchanged to the one wrapped field, and `source()` returns exactly what the wrapped error's own `source()` returns, never the wrapped error itself. This holds for concrete, boxed, dynamic, generic and borrowed wrapped errors, with named or unnamed field, with or without `#[from]`, and for any number of nested transparent layers.",
["programs","inputs"],"over all transparent declarations, wrapped error types and formatter options, any nesting depth",
"Tests render transparent errors only with `{}` and wrap at most one layer; flags, nested layers, named fields in enums and dynamic errors without anyhow are untested.",
["impl/src/expand.rs","src/aserror.rs","impl/src/ast.rs"],
[("transparent Display body","impl/src/expand.rs: impl_struct / impl_enum display"),("transparent source body","impl/src/expand.rs: source_body / arms"),("as_dyn_error","src/aserror.rs")],
["format!() with flags","Error::source()"])

p("C06","source() returns exactly the designated field",
"`source()` of a derived error returns a reference to the very field marked `#[source]` or `#[from]`, else to the field named `source` (not written as a raw identifier), else nothing; if that field is an Option, it returns the contained error or nothing. The choice is independent of field order, other fields' names and types, and of the other variants; boxed and dynamic errors are exposed as the error behind the box when the box itself is not an error. A type with no designated field never reports a source.",
["programs","inputs"],"over all declarations (containers, field orders, markers, names, field types) and values",
"Tests check six declarations, and only the type of the returned error, not which field it is; no test checks Option sources at run time.",
["impl/src/prop.rs","impl/src/expand.rs","src/aserror.rs","impl/src/unraw.rs"],
[("source field selection","impl/src/prop.rs: source_field"),("source method","impl/src/expand.rs: source_method"),("as_dyn_error impls","src/aserror.rs")],
["Error::source() result, compared by address with the field"])

p("C07","Error chains keep every layer, in order, at any depth",
"However derived errors are nested (by From conversion, by constructor, through Box, dynamic errors, Options and transparent layers, in any order and to any depth), walking `source()` from the outermost error visits exactly the non-transparent layers from outside in, each once, stops at the first layer that has no source, and renders each layer's own message. A backtrace requested from the outermost error is the one the nesting rules select: each layer either forwards the request to its source, answers with its own, or does not answer.",
["histories","programs"],"over all sequences of wrapping steps, of any length, and all observation points",
"Tests build chains of length at most two; properties of compositions depend on every pair of adjacent layer kinds.",
["impl/src/expand.rs","impl/src/prop.rs","src/aserror.rs","src/provide.rs"],
[("source forwarding","impl/src/expand.rs source_method"),("provide forwarding","impl/src/expand.rs provide_method; src/provide.rs")],
["walk of Error::source()","to_string() of each layer","std::error::request_ref"],None,
[("chain","stack of wrapped layers","value of the derived types")])

p("C08","From builds exactly the marked variant from exactly the given error",
"A conversion exists for every field marked `#[from]` (from the inner type when the field is an Option) and for nothing else; converting produces that struct or that variant holding the given error itself, unmodified, inside `Some` for an Option field, so that `?` picks the variant whose marked field has the error's type. If the container also has a backtrace field, the conversion captures a backtrace at that moment into it (plain, Option or any type convertible from a backtrace).",
["programs","inputs"],"over all declarations with any number of marked variants, field shapes and values",
"Tests only assert that a From impl exists; which variant results, its contents, the captured backtrace, and that no other conversion exists are not asserted.",
["impl/src/expand.rs","impl/src/prop.rs","impl/src/valid.rs"],
[("from impls","impl/src/expand.rs: from_impl(s), from_initializer"),("distinct backtrace field","impl/src/prop.rs: distinct_backtrace_field")],
["From::from result","trait-implementation probes"])

p("C09","A backtrace request is answered by the declared backtrace and nothing else",
"Requesting a backtrace from a derived error yields the field marked `#[backtrace]`, or else the field whose type is named Backtrace (by reference to that very object, looking into an Option and through a shared pointer), in the variant that is active; if the marked field is also the source, the request and every other member-access request is forwarded to the source instead. When a container has both a source and a separate backtrace field, the source is asked first and the own backtrace is the fallback, except that in an enum variant a field explicitly marked `#[backtrace]` answers alone. A transparent container forwards nothing unless its field is marked `#[backtrace]` and is the source. An error that declares no backtrace field answers no request.",
["programs","inputs"],"over all declarations mixing source/from/backtrace markers, field types, orders, variants and values (None/Some)",
"Tests check only that some backtrace is returned, for 18 fixed declarations, never which one, never None cases at run time, and never that other requests are (not) forwarded.",
["impl/src/expand.rs","impl/src/prop.rs","src/provide.rs"],
[("provide method","impl/src/expand.rs: provide_method"),("backtrace field selection","impl/src/prop.rs: backtrace_field, type_is_backtrace"),("forwarding","src/provide.rs")],
["std::error::request_ref / request_value on derived values (nightly)"])

p("C10","A declaration is accepted exactly when it obeys the attribute rules",
"Declarations are accepted exactly when: at most one of each marker on an item and per field list; markers only on fields and display attributes only on the container; transparent has exactly one field, no `#[source]`, no other display attribute; `fmt = path` only in enums and not beside a message; `#[from]` only on the source field and with no other field than a backtrace; an attribute-marked source has no non-static lifetime; the type is not a union; and every variant has text if any variant has a message or `fmt`. Every other declaration is rejected at compile time with a diagnostic naming a rule it breaks.",
["programs","configurations"],"over all combinations of container kind, container attributes, fields, field attributes and field types",
"37 ui files each break one rule in isolation; combinations (which check sees what, across variants and inherited attributes, legal near-misses) are untested.",
["impl/src/valid.rs","impl/src/attr.rs","impl/src/ast.rs","impl/src/prop.rs"],
[("validation","impl/src/valid.rs"),("attribute parsing","impl/src/attr.rs: get, parse_error_attribute")],
["compile-time outcome and the text of the diagnostic"],
"cfg(thiserror_verif): derive entry point callable in-process")

p("C11","Generic errors implement Display and Error under exactly the needed bounds",
"For a generic error type, an instantiation can be rendered as text exactly when every field whose type is a path mentioning a type parameter and which a placeholder of the message formats implements the formatting traits those placeholders use on it; unused fields, `.field` arguments, placeholders answered by explicit arguments, and fields whose type is a reference, tuple or array (left to the declared where clause) impose nothing. It is an Error exactly when in addition it is Debug, its source field (behind Option) is a static Error and its transparent field is an Error, together with the declared where clause. The bounds hold for nested generics, associated types, several parameters, defaults, lifetimes and const parameters.",
["programs","configurations"],"over all generic declarations and all instantiations of their parameters",
"Tests instantiate four generic types; whether a bound is missing or superfluous shows only for instantiations that no test makes.",
["impl/src/generics.rs","impl/src/expand.rs","impl/src/fmt.rs","impl/src/attr.rs"],
[("generic detection","impl/src/generics.rs: ParamsInScope"),("bound inference","impl/src/generics.rs: InferredBounds; impl/src/expand.rs"),("implied bounds","impl/src/fmt.rs: implied_bounds")],
["trait-implementation probes on instantiated types"])

p("C12","A bad declaration yields one diagnostic, never a panic or follow-on errors",
"For every syntactically valid type definition with arbitrary attribute contents, expansion terminates without panicking and yields well-formed Rust. When the declaration is rejected, the output carries a single diagnostic and still implements Error and Display for the type with its generics and where clause, so code that uses the type as an error causes no further errors. An accepted declaration carries no such diagnostic.",
["inputs","programs"],"over all token sequences inside the attributes and all containers, generics and where clauses",
"Two ui files exercise the fallback, neither with generics or a where clause; panics on odd attribute contents are found only by exploring inputs.",
["impl/src/fallback.rs","impl/src/expand.rs","impl/src/attr.rs","impl/src/fmt.rs","impl/src/scan_expr.rs"],
[("fallback expansion","impl/src/fallback.rs: expand"),("attribute parsing","impl/src/attr.rs"),("argument scanning","impl/src/fmt.rs, impl/src/scan_expr.rs")],
["expansion result","the set of rustc diagnostics for a crate using the type"],
"cfg(thiserror_verif): derive entry point callable in-process")

p("C13","Derived code does not depend on names at the use site",
"A declaration accepted in one scope behaves identically in every scope: user items that shadow prelude or standard names (Option, Some, Result, From, Error, Display, core, std, write, ...), types, variants, generics and lifetimes with such names, fields named by keywords (raw) or like names the derive uses, explicit arguments named like generated locals, and declarations produced by macros whose pieces come from different places (including field types passed as macro fragments) change nothing. The derive adds no trait implementations beyond Error, Display and the declared conversions. (Names beginning with two underscores and the lifetimes `'_request` and `'workaround` are reserved to the derive, `thiserror` must be reachable under its own name, a bare name in an argument that is the name of a field means the field, and the types Option and Backtrace are recognized by the last segment of their path.)",
["programs","configurations"],"over all scopes x declarations x token origins (literal or macro fragment)",
"Four regression tests cover single collisions; each new generated name or unqualified path is a collision with some scope no test has.",
["impl/src/expand.rs","impl/src/attr.rs","impl/src/fmt.rs","impl/src/unraw.rs","impl/src/generics.rs"],
[("absolute paths and generated locals","impl/src/expand.rs, impl/src/attr.rs"),("raw identifiers","impl/src/unraw.rs"),("formatvar renaming","impl/src/fmt.rs")],
["observations of the same declaration compiled in different scopes","trait-implementation probes"])

p("C14","Derived code is silent under strict lints",
"An accepted declaration whose own code is free of warnings stays free of warnings when the derive is added, with all rustc default lints plus unused qualifications, elided lifetimes, missing docs and similar lints denied (not forbidden): deprecated types, variants, fields and (where the user's own mention of them is allowed) source types and bounds, unused fields, generics, raw identifiers and every attribute combination included. The one intended exception is a message that displays `self`, which warns about unconditional recursion.",
["programs","configurations"],"over all accepted declarations x lint levels x toolchains",
"Four lint tests with one declaration each.",
["impl/src/expand.rs","impl/src/attr.rs","impl/src/fallback.rs"],
[("allow attributes","impl/src/expand.rs quote! blocks"),("call-site spans","impl/src/expand.rs: call_site_ident"),("recursion warning","impl/src/attr.rs: ToTokens for Display")],
["rustc diagnostics for crates using the derive"])

p("C15","Behaviour is the same in every build configuration",
"For declarations supported in several build configurations (with or without the std feature, stable or nightly compiler, with or without other crates enabling the full-syntax feature of the parser dependency, debug or release) acceptance, rendered text, source and conversions are identical; features requested anywhere in the dependency graph count for every crate in it. Path-typed fields render with std on and are refused at compile time without it; a backtrace of one's own is supported exactly with std on a compiler with generic member access, forwarding to a source's on any such compiler; without it such a declaration is refused. The crate that uses the derive may itself be no_std and of any edition.",
["configurations","programs"],"over the product of build configurations and declarations",
"CI runs the same fixed tests in three configurations and never with the full-syntax feature unified on; nothing compares configurations.",
["src/lib.rs","src/display.rs","src/aserror.rs","src/provide.rs","impl/src/fmt.rs","impl/src/scan_expr.rs"],
[("std gating","src/lib.rs, src/display.rs"),("is_syn_full switch","impl/src/fmt.rs"),("error_generic_member_access gating","src/lib.rs")],
["observation of one corpus in each configuration"])

p("C16","A failing writer stops rendering with an error and a clean prefix",
"If the destination refuses a write at any point while a derived error is being rendered, rendering returns the formatting error instead of succeeding or panicking, writes nothing further, and what was accepted before is a prefix of the full text; an error returned by a field's own formatting propagates the same way. If no write is refused, rendering succeeds with the complete text, and rendering the same value again gives the same text.",
["fault_sequences","inputs"],"over every point of failure (byte budget, or field whose formatting fails) x every message shape (plain text, placeholders, transparent, fmt = path)",
"One no_std test has a writer that could fail but never does.",
["impl/src/attr.rs","impl/src/expand.rs","src/display.rs","src/var.rs"],
[("write! / write_str result returned as is","impl/src/attr.rs: ToTokens for Display"),("fmt::Result pass-through","src/var.rs, impl/src/expand.rs")],
["fmt::write into a faulty writer"])

p("C17","Build detection enables exactly the features the compiler supports",
"The build script turns on generic member access exactly when the probe compiles with the compiler, wrappers, target and flags in use, honouring an explicit opt-out or opt-in through the bootstrap variable (a nightly compiler is taken to support unstable features whatever the variable says); it falls back to the std build on compilers older than 1.81 and disables the backtrace type before 1.65, and leaves both alone when the version is unreadable. It asks to be rerun on a change of the bootstrap variable unless the plain probe succeeds or the variable is already 1 and the probe fails with it, and leaves no probe files behind.",
["configurations"],"over all combinations of compiler version, nightly support, bootstrap variable, wrappers, target, flags, std feature and nested-bootstrap environment",
"The test suite runs the script with two real compilers only.",
["build.rs","build/probe.rs"],
[("probe decision","build.rs: main"),("probe command","build.rs: compile_probe"),("version parsing","build.rs: rustc_minor_version")],
["the script's cargo directives and the recorded compiler invocations, with stand-in compilers"])

with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+"\n")
