TECH["C01"] = ("TLA+ model of message construction and std::fmt grammar, TLC-enumerated behaviours replayed on derived types",
    "TLC enumerates bounded message constructions exhaustively and simulates longer ones, checks that the scanner model refines the "
    "grammar, and every sampled behaviour is compiled with the real derive and its text compared. Bounded alphabet and message length; "
    "trusts TLC and rustc's format macros (cross-checked in the same run).")

SEM = ("TLC enumerates declarations (attributes, field types and names, variants) and their values exhaustively within bounds and checks "
       "the design invariants; a seeded sample of the declarations (all in the thorough tier's bounds up to several thousand) is compiled with "
       "the real derive and every observation compared. Bounded fields, variants and attribute counts; trusts TLC and rustc.")
TECH["C06"] = ("TLA+ model of declarations and values (Decl/DeclGen), behaviours replayed on derived types, addresses compared", SEM)
TECH["C08"] = ("TLA+ model of declarations and conversions (Decl/DeclGen), trait resolution and built values compared", SEM)
TECH["C09"] = ("TLA+ model of member access (Decl/DeclGen Providers), behaviours replayed on derived types, answering object compared", SEM)
TECH["C10"] = ("TLA+ model of the attribute rules; every enumerated declaration is judged by the real derive in-process",
    "TLC enumerates declarations exhaustively within five bounded families and the real derive judges every one; rustc confirms a sample. "
    "Bounded attribute, field and variant counts; trusts TLC, syn and proc-macro2's token model.")

EXPR = ("TLC enumerates argument expressions built inside-out from about ninety templates (all of depth one, seeded depth two and three) and "
        "checks on each that the modelled argument splitter ends exactly at the expression's end; the real derive judges and evaluates them. "
        "Bounded depth and template set; trusts TLC and rustc's expression parser. ")
TECH["C02"] = ("TLA+ models of expression syntax, argument splitter and name resolution; enumerated behaviours replayed on the real derive",
    EXPR + "The resolution table is enumerated exhaustively for one placeholder and simulated for longer messages.")
TECH["C03"] = ("TLA+ model of argument expressions with field references in every expression position, values compared on compiled types", EXPR)

TECH["C04"] = ("TLA+ model of enums (EnumMsg): attribute inheritance and per-variant text; enumerated enums judged in-process and replayed on compiled types",
    "TLC enumerates all one- and two-variant enums over the attribute alphabet and simulates up to five variants; the real derive judges all of them, "
    "a seeded sample is compiled and every variant rendered under three formatter settings. Bounded fields and attribute alphabet.")
TECH["C05"] = ("TLA+ model of transparent layers (Layers), behaviours replayed on compiled types under five formatter settings",
    "All one-layer declarations and two-layer stacks over the holder alphabet are enumerated, deeper stacks simulated; samples are compiled. Bounded depth and holder kinds.")
TECH["C07"] = ("TLA+ model of error chains (Chain): enumerated wrapping sequences replayed on real types, and recorded random executions validated by TLC as traces",
    "All sequences of two steps over 42 layer kinds and four steps over 12 are enumerated, forty steps simulated, and random executions of the real types up to depth 200 "
    "are checked by TLC to be behaviours of the specification. Layer kinds are a fixed alphabet; nightly toolchain.")

TECH["C11"] = ("TLA+ trait solver (Bounds) predicts for each generic declaration which instantiations are Display, Error and From; trait probes on compiled types compared",
    "All one-field generic declarations over 13 type shapes are enumerated, two- and three-field ones simulated; a seeded sample is compiled and every "
    "prediction probed by the compiler itself. Bounded type shapes; bounds on types that are not paths are left to the declared where clause.")

TECH["C16"] = ("TLA+ model of rendering into a refusing destination (Emit): every budget and failing field of each message shape replayed on compiled types",
    "TLC explores every point of refusal (character by character) and every failing field for messages of up to two (thorough: three) pieces over eleven piece kinds "
    "and eight container forms; each is replayed with four writer behaviours. Bounded message length.")

TECH["C17"] = ("TLA+ model of the build script, the compilers it meets and Cargo's rerun decision (Build); histories replayed on the real script with stand-in compilers",
    "All pairs of deviations (thorough: samples of four) over ten aspects of the configuration times histories of two (four) settings of the bootstrap variable are enumerated by TLC; "
    "the compiled build script of /repo is run through them as an unprivileged user, and once more with the compilers installed here against a witness crate.")

TECH["C12"] = ("TLA+ models of rejected declarations with generics and uses (Reject) and of attribute token sequences (Soup); judged by rustc and by the derive in-process",
    "TLC enumerates one edit (simulates up to four) of eight accepted declarations times all generics; rustc must report exactly the derive's one diagnostic although the type is used as an "
    "error in ten ways. All attribute token sequences of one token over 100 and two (thorough: three) over 31, and longer random ones, go through the derive with and without syn's full syntax. "
    "Bounded lengths; trusts TLC, rustc and syn's file parser.")

TECH["C13"] = ("TLA+ model of name resolution of the generated names (Scope); enumerated and simulated scopes replayed on compiled types in four editions",
    "TLC enumerates every single change (rename an entity, add an item to the scope, pass a piece through a macro, edition, prelude) to sixteen declarations and simulates up to forty at once; "
    "invariants show which collisions can reach generated names; a sample of every stratum is compiled and observed. The name alphabet and the sixteen declarations are fixed.")

TECH["C14"] = ("TLA+ model of what the expansion mentions, whose tokens those are and which allow covers them (Lint); enumerated declarations compiled with every lint on, with the derive and with a derive that generates nothing",
    "TLC enumerates one and two edits of fifteen silent declarations and simulates nine; a sample over all feature combinations is compiled on two (thorough: four, and clippy) compilers with all of the "
    "compiler's lints at warn; a lint that appears only with the real derive is a violation. Lints at forbid are excluded; the feature alphabet is fixed.")

TECH["C15"] = ("TLA+ model of configurations as graphs of units with what the runtime crate exports in each (Config); every declaration replayed in a covering array of real builds",
    "TLC enumerates one edit and simulates up to seven edits of eleven declarations and proves over all 384 configurations that acceptance follows the documented gates, grows with capabilities and keeps one meaning; "
    "the declarations are compiled and observed, or must be refused, in configurations covering all pairs (thorough: triples) of std, feature unification, parser, compiler, profile, no_std crate and edition. Two compilers.")
