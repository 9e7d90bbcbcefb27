---------------------------------- MODULE Scope ----------------------------------
(* One declaration in many scopes: what it derives does not depend on the names around it.                 *)
(*   tmpl     which declaration (a fixed library, rendered and observed by the check)                       *)
(*   names    the names its entities were given, where not the default                                      *)
(*   items    what else is in scope: [kind, name]                                                           *)
(*   place    the macro context each class of its pieces comes from: "d" where the derive is written,       *)
(*            "m" a macro in between, "u" the place of use                                                  *)
(*   edition, prelude                                                                                       *)
(* The expansion is a set of name occurrences. Resolve says what Rust resolves each of them to; Hazards is  *)
(* the closed list of collisions that reach generated code. Faithful: apart from those every occurrence     *)
(* means what it was generated to mean, in every scope.                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS MaxSteps, Hygiene, Avoid

VARIABLES tmpl, names, items, place, edition, prelude, step, goal
vars == <<tmpl, names, items, place, edition, prelude, step, goal>>

\* Slots of each template, by entity kind; features decide the generated occurrences.
Tmpl(n, tup, slots, feats) == [n |-> n, tuple |-> tup, slots |-> slots, feats |-> feats]
S(id, k) == [id |-> id, k |-> k]
Templates == {
  Tmpl("named",   FALSE, {S("ty","ty"), S("f1","f"), S("f2","f"), S("an","an")}, {"display", "bonus", "arg", "fields"}),
  Tmpl("tuple",   TRUE,  {S("ty","ty"), S("an","an")}, {"display", "bonus", "arg", "tfields"}),
  Tmpl("unit",    TRUE,  {S("ty","ty")}, {"plain"}),
  Tmpl("enum",    FALSE, {S("ty","ty"), S("v1","v"), S("v2","v"), S("v3","v"), S("f1","f"), S("f2","f"), S("an","an")}, {"display", "bonus", "arg", "fields", "tfields", "plain"}),
  Tmpl("source",  FALSE, {S("ty","ty"), S("f1","f"), S("f2","f")}, {"display", "bonus", "fields", "src", "optsrc", "self", "provide", "psource", "fsource"}),
  Tmpl("sources", FALSE, {S("ty","ty"), S("v1","v"), S("f1","f"), S("f2","f")}, {"display", "bonus", "fields", "src", "optsrc", "esrc", "provide", "esprov", "eprov", "fsource", "fbacktrace"}),
  Tmpl("from",    FALSE, {S("ty","ty"), S("v1","v"), S("v2","v"), S("v3","v"), S("f1","f"), S("f2","f")}, {"display", "bonus", "fields", "tfields", "src", "esrc", "provide", "esprov", "eprov", "from", "fsource", "fbacktrace"}),
  Tmpl("optfrom", TRUE,  {S("ty","ty")}, {"plain", "tfields", "src", "optsrc", "self", "provide", "psource", "from"}),
  Tmpl("transparent", FALSE, {S("ty","ty"), S("f1","f")}, {"tself", "src", "self"}),
  Tmpl("transenum", FALSE, {S("ty","ty"), S("v1","v"), S("v2","v"), S("v3","v"), S("f1","f")}, {"display", "fields", "tfields", "plain", "src", "trans", "from"}),
  Tmpl("generic", FALSE, {S("ty","ty"), S("f1","f"), S("f2","f"), S("tp","tp")}, {"display", "bonus", "fields", "src", "optsrc", "self"}),
  Tmpl("generics", FALSE, {S("ty","ty"), S("v1","v"), S("v2","v"), S("v3","v"), S("f1","f"), S("f2","f"), S("lt","lt"), S("tp","tp"), S("cp","cp")}, {"display", "bonus", "fields", "tfields", "src", "trans", "esrc"}),
  Tmpl("fmt",     FALSE, {S("ty","ty"), S("v1","v"), S("v2","v"), S("f1","f"), S("f2","f"), S("fn","fn")}, {"display", "fmtpath"}),
  Tmpl("path",    FALSE, {S("ty","ty"), S("f1","f"), S("f2","f")}, {"display", "bonus", "fields"}),
  Tmpl("pointer", FALSE, {S("ty","ty"), S("f1","f"), S("f2","f"), S("lt","lt")}, {"display", "fields", "arg"}),
  Tmpl("traced",  FALSE, {S("ty","ty"), S("f1","f"), S("f2","f"), S("lt","lt"), S("tp","tp")}, {"display", "bonus", "fields", "src", "optsrc", "self", "provide", "psource", "fsource"}),
  Tmpl("traceds", FALSE, {S("ty","ty"), S("v1","v"), S("f1","f"), S("f2","f"), S("lt","lt"), S("tp","tp")}, {"display", "bonus", "fields", "tfields", "from", "src", "optsrc", "esrc", "provide", "esprov", "eprov", "fsource", "fbacktrace"}),
  Tmpl("empty",   FALSE, {S("ty","ty")}, {}) }

\* ---- names -------------------------------------------------------------------------------------------
Keywords == {"type", "gen", "async", "dyn", "try", "match", "fn", "box", "move"}
TypeLike == {"Option", "Result", "From", "Error", "Display", "Debug", "Formatter", "Request", "Backtrace", "String", "Box", "Path", "Sized", "Some", "None", "Ok", "Err",
             "AsDisplay", "AsDynError", "ThiserrorProvide", "Var", "Fn", "Clone", "Default", "Arguments", "Write"}
ModLike == {"core", "std", "alloc", "thiserror", "error", "fmt", "convert", "option", "result", "u8", "u32", "str", "bool", "usize"}
Locals == {"source", "backtrace", "transparent", "request", "_0", "_1", "formatter", "f", "from", "provide", "this", "value", "x", "s", "e"}
FnLike == {"write", "drop", "panic", "format", "from", "source", "fmt", "provide", "request", "as_display", "as_dyn_error", "demo", "main"}
MacroNames == {"write", "writeln", "format_args", "panic", "format", "concat", "stringify", "matches", "unreachable", "todo", "assert", "compile_error", "vec", "include_str", "cfg", "const_format_args", "derive", "addr_of"}
Methods == {"source", "provide", "fmt", "to_string", "write_str", "write_fmt", "display", "clone", "into", "borrow", "deref", "cause", "description", "type_id", "provide_ref", "eq",
            "as_ref", "as_display", "as_dyn_error", "thiserror_provide", "as_mut", "by_ref", "pad", "from", "map", "unwrap", "as_str"}

Domain(k) == CASE k = "ty" -> TypeLike \cup ModLike \cup {"type", "source", "gen", "T", "request"}
               [] k = "v" -> TypeLike \cup {"type", "source", "fmt", "core", "V9"}
               [] k = "f" -> (Keywords \cup ModLike \cup FnLike \cup {"transparent", "_0", "_1", "formatter", "f", "this", "value", "x", "s", "e", "self_", "e_acute", "None"}) \ {"source"}
               [] k = "an" -> {"source", "backtrace", "_0", "_9", "f", "fmt", "type", "write", "core", "x", "arg", "request", "e_acute"}
               [] k = "tp" -> (TypeLike \ {"Backtrace"}) \cup ModLike \cup {"type", "gen", "source", "T", "Self_"}
               [] k = "lt" -> {"request", "formatter", "source", "fields", "x", "_a", "b"}
               [] k = "cp" -> {"M", "None", "Some", "Err", "source", "x", "write"}
               [] k = "fn" -> (FnLike \ {"main"}) \cup {"type", "core", "e_acute", "gen"}

Default(s) == CASE s.id = "ty" -> "Type" [] s.id = "v1" -> "V1" [] s.id = "v2" -> "V2" [] s.id = "v3" -> "V3" [] s.id = "f1" -> "a" [] s.id = "f2" -> "b"
                [] s.id = "an" -> "n" [] s.id = "tp" -> "P" [] s.id = "lt" -> "a" [] s.id = "cp" -> "N" [] s.id = "fn" -> "show"
Slots == tmpl.slots
Has(ft) == ft \in tmpl.feats
Name(s) == IF s.id \in DOMAIN names THEN names[s.id] ELSE Default(s)
NamesOf(k) == {Name(s) : s \in {z \in Slots : z.k = k}}

\* ---- the scope -----------------------------------------------------------------------------------------
\* kind -> namespaces it occupies
TypeKinds == {"struct", "trait", "mod", "alias", "enum", "use", "glob", "union"}
NsOf(k) == CASE k \in TypeKinds -> {"t"} [] k = "unit" -> {"t", "v"} [] k = "tuplestruct" -> {"t", "v"} [] k \in {"fn", "const", "static", "globfn"} -> {"v"} [] k = "macro" -> {"m"}
            [] k \in {"method", "methodval", "methodmut", "assoc"} -> {"meth"}
Items == {[kind |-> k, name |-> n] : k \in TypeKinds, n \in TypeLike \cup ModLike}
         \cup {[kind |-> k, name |-> n] : k \in {"unit", "tuplestruct"}, n \in {"Some", "None", "Ok", "Err", "Option", "core", "Error", "source", "x", "a", "backtrace", "transparent", "request"}}
         \cup {[kind |-> k, name |-> n] : k \in {"fn", "globfn"}, n \in FnLike \cup {"Some", "Ok", "Err", "None", "a", "b", "n", "_0", "transparent", "backtrace"}}
         \cup {[kind |-> k, name |-> n] : k \in {"const", "static"}, n \in {"Some", "None", "Ok", "Err", "A", "a", "source", "_0", "request", "transparent", "backtrace", "n"}}
         \cup {[kind |-> "macro", name |-> n] : n \in MacroNames}
         \cup {[kind |-> k, name |-> n] : k \in {"method", "methodval", "methodmut"}, n \in Methods}
Clash(i, j) == i.name = j.name /\ NsOf(i.kind) \cap NsOf(j.kind) # {}
\* The declaration's own items.
Own == {[kind |-> IF Has("plain") /\ tmpl.n = "unit" THEN "unit" ELSE IF tmpl.tuple THEN "tuplestruct" ELSE "struct", name |-> Name(s)] : s \in {z \in Slots : z.k = "ty"}}
       \cup {[kind |-> "fn", name |-> Name(s)] : s \in {z \in Slots : z.k = "fn"}}

\* ---- what patterns may not bind: constants, statics, unit and tuple structs, const parameters -----------
PreludeValues == IF prelude THEN {"Some", "None", "Ok", "Err"} ELSE {}
ValueFns == {i.name : i \in {z \in items \cup Own : z.kind \in {"fn", "globfn"}}}
Unbindable == {i.name : i \in {z \in items \cup Own : z.kind \in {"const", "static", "unit", "tuplestruct"}}} \cup NamesOf("cp")
              \cup (PreludeValues \ ValueFns)
MethodsInScope(k) == {i.name : i \in {z \in items : z.kind = k}}

\* ---- occurrences of generated code ------------------------------------------------------------------------
\* form: "abs" a path from the extern prelude; "local" a name bound by the generated function; "method"
\* ctx: macro contexts of binding and use of a local
Ctx(c) == IF c \in DOMAIN place THEN place[c] ELSE "d"
Local(n, b, u) == [form |-> "local", name |-> n, bind |-> b, use |-> u]
Abs(p) == [form |-> "abs", name |-> p, bind |-> "d", use |-> "d"]
Method(n) == [form |-> "method", name |-> n, bind |-> "d", use |-> "d"]
\* Where a leading-dot reference, or self, is looked up: with the fix at the binding's context, before it at its own.
FieldUse == IF Hygiene = "fixed" THEN Ctx("field") ELSE Ctx("ref")
IndexUse == IF Hygiene = "fixed" THEN "d" ELSE Ctx("ref")
SelfUse(c) == IF Hygiene = "fixed" THEN "d" ELSE Ctx(c)
FieldLocals == IF Has("fields") THEN NamesOf("f") \cup (IF Has("fsource") THEN {"source"} ELSE {}) \cup (IF Has("fbacktrace") THEN {"backtrace"} ELSE {}) ELSE {}
Occ ==
  {Abs("::core::fmt::Display"), Abs("::core::fmt::Formatter"), Abs("::core::fmt::Result"), Abs("::thiserror::__private::Error")}
  \cup (IF Has("display") THEN {Abs("::core::write!"), Local("__formatter", "d", "d")} ELSE {})
  \cup (IF Has("plain") THEN {Method("write_str"), Local("__formatter", "d", "d")} ELSE {})
  \cup {Local(n, Ctx("field"), Ctx("field")) : n \in FieldLocals}                              \* {field}: bound and used at the field's context
  \cup (IF Has("display") THEN {Local("__display", Ctx("msg"), Ctx("msg"))} ELSE {})             \* the local made for a placeholder
  \cup (IF Has("arg") THEN {Local(n, Ctx("field"), FieldUse) : n \in FieldLocals} ELSE {})
  \cup (IF Has("tfields") THEN {Local("_0", "d", "d")} ELSE {})
  \cup (IF Has("tfields") /\ Has("arg") THEN {Local("_0", "d", IndexUse)} ELSE {})
  \cup (IF Has("bonus") THEN {Abs("::thiserror::__private::AsDisplay"), Method("as_display")} ELSE {})
  \cup (IF Has("src") THEN {Abs("::thiserror::__private::AsDynError"), Abs("::core::option::Option"), Method("as_dyn_error")} ELSE {})
  \cup (IF Has("optsrc") THEN {Method("as_ref")} ELSE {})
  \cup (IF Has("self") THEN {Local("self", "d", SelfUse("field")), Local("self", "d", SelfUse("attr"))} ELSE {})
  \cup (IF Has("trans") THEN {Local("transparent", "d", SelfUse("attr"))} ELSE {})
  \cup (IF Has("esrc") \/ Has("esprov") THEN {Local("source", "d", "d")} ELSE {})
  \cup (IF Has("psource") THEN {Local("source", Ctx("field"), Ctx("field"))} ELSE {})
  \cup (IF Has("eprov") THEN {Local("backtrace", "d", "d")} ELSE {})
  \cup (IF Has("provide") THEN {Local("request", "d", "d"), Method("provide_ref"), Method("thiserror_provide"), Abs("::core::error::Request"), Abs("::thiserror::__private::Backtrace")} ELSE {})
  \cup (IF Has("from") THEN {Local("source", Ctx("attr"), Ctx("attr")), Abs("::core::convert::From")} ELSE {})
  \cup (IF Has("fmtpath") THEN {Local("_0", "d", "d")} \cup (IF Hygiene = "fixed" THEN {} ELSE {Local(n, Ctx("field"), Ctx("field")) : n \in NamesOf("f")}) ELSE {})

\* Inherent methods of the formatter, the request and Option are found before any trait's, but for Option::as_ref a trait's method
\* that takes self by value is found first.
Hijackers(m) == CASE m \in {"write_str", "write_fmt", "provide_ref"} -> {}
                  [] m = "as_ref" -> MethodsInScope("methodval") \cap {m}
                  [] OTHER -> (MethodsInScope("method") \cup MethodsInScope("methodval") \cup MethodsInScope("methodmut")) \cap {m}
\* The name of a const parameter stands as a generic argument, where a type of that name is found first.
\* A variant is in the namespace of types too.
TypesInScope == {i.name : i \in {z \in items \cup Own : "t" \in NsOf(z.kind)}} \cup (IF prelude THEN {"Some", "None", "Ok", "Err"} ELSE {})
ConstArgs == {[form |-> "constarg", name |-> n, bind |-> "d", use |-> "d"] : n \in NamesOf("cp")}

Resolve(o) == CASE o.form = "abs" -> "intended"
                [] o.form = "local" -> IF o.name \in Unbindable THEN "item" ELSE IF o.bind # o.use THEN "unbound" ELSE "intended"
                [] o.form = "constarg" -> IF o.name \in TypesInScope THEN "type" ELSE "intended"
                [] o.form = "method" -> IF Hijackers(o.name) = {} THEN "intended" ELSE "other trait"
\* A function called by its bare name where a local of that name is in scope.
Called == IF Has("fmtpath") THEN NamesOf("fn") ELSE {}
CallOk == \A n \in Called : n \notin {o.name : o \in {z \in Occ : z.form = "local"}}

Hazards == {[k |-> "binding", n |-> n] : n \in {o.name : o \in {z \in Occ : z.form = "local"}} \cap Unbindable}
           \cup {[k |-> "method", n |-> n] : n \in {o.name : o \in {z \in Occ : z.form = "method" /\ Hijackers(z.name) # {}}}}
           \cup {[k |-> "constarg", n |-> n] : n \in NamesOf("cp") \cap TypesInScope}
           \cup {[k |-> "called", n |-> n] : n \in Called \cap {"_0", "_1", "__formatter"}}

\* ---- steps --------------------------------------------------------------------------------------------
Init == /\ tmpl \in Templates /\ names = <<>> /\ items = {} /\ place = <<>> /\ edition = "2021" /\ prelude = TRUE /\ step = 0 /\ goal \in 1..MaxSteps
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SameKind(s) == {z \in Slots : z.k = s.k /\ z.id # s.id}
\* Names a declaration may not give twice, reserved ones left out.
Free(s, n) == /\ \A z \in SameKind(s) : Name(z) # n
              /\ (s.k \in {"ty", "fn"} => \A i \in items : i.name # n)
              /\ (s.k = "ty" => n \notin NamesOf("tp") /\ n \notin NamesOf("fn") /\ n \notin NamesOf("cp"))
              /\ (s.k = "tp" => n \notin NamesOf("ty") /\ n \notin NamesOf("cp"))
              /\ (s.k = "cp" => n \notin NamesOf("ty") /\ n \notin NamesOf("tp"))
              /\ (s.k = "fn" => n \notin NamesOf("ty"))
              /\ (s.k = "f" => n \notin NamesOf("an")) /\ (s.k = "an" => n \notin NamesOf("f"))
Rename == \E s \in Slots : \E n \in Domain(s.k) : Free(s, n) /\ names' = Put(names, s.id, n) /\ UNCHANGED <<tmpl, items, place, edition, prelude>>
Shadow == \E i \in Items : /\ i \notin items /\ \A j \in items \cup Own : ~Clash(i, j)
                           /\ items' = items \cup {i} /\ UNCHANGED <<tmpl, names, place, edition, prelude>>
Classes == {"type", "variant", "field", "ref", "ftype", "msg", "attr", "arg", "life", "param", "body", "vis", "path"}
Pass == \E c \in Classes, w \in {"m", "u"} : c \notin DOMAIN place /\ place' = Put(place, c, w) /\ UNCHANGED <<tmpl, names, items, edition, prelude>>
Edition == \E e \in {"2015", "2018", "2024"} : edition = "2021" /\ edition' = e /\ UNCHANGED <<tmpl, names, items, place, prelude>>
NoPrelude == prelude /\ prelude' = FALSE /\ UNCHANGED <<tmpl, names, items, place, edition>>
\* For long random behaviours: one candidate of each kind, and no collision.
OneOf ==
  /\ \/ \E s \in {RandomElement(Slots)} : \E n \in {RandomElement(Domain(s.k))} :
           Free(s, n) /\ names' = Put(names, s.id, n) /\ UNCHANGED <<tmpl, items, place, edition, prelude>>
     \/ \E k \in 1..8 : \E i \in {RandomElement(Items)} :
           /\ i \notin items /\ (\A j \in items \cup Own : ~Clash(i, j))
           /\ items' = items \cup {i} /\ UNCHANGED <<tmpl, names, place, edition, prelude>>
     \/ \E c \in {RandomElement(Classes)} : \E w \in {RandomElement({"m", "u"})} :
           c \notin DOMAIN place /\ place' = Put(place, c, w) /\ UNCHANGED <<tmpl, names, items, edition, prelude>>
     \/ Edition
     \/ NoPrelude
  /\ Hazards' = {}
Change == /\ step < goal /\ step' = step + 1 /\ goal' = goal
          /\ IF Avoid THEN OneOf ELSE Rename \/ Shadow \/ Pass \/ Edition \/ NoPrelude
Show == /\ step = goal /\ step' = goal + 1 /\ UNCHANGED <<tmpl, names, items, place, edition, prelude, goal>>
        /\ PrintT("CASE " \o ToJson([tmpl |-> tmpl.n, names |-> names, items |-> items, place |-> place, edition |-> edition, prelude |-> prelude, hazards |-> Hazards, step |-> step]))
Next == Change \/ Show

\* ---- properties -------------------------------------------------------------------------------------------
\* Apart from the listed collisions every generated name means what it was generated to mean.
Faithful == Hazards = {} => (\A o \in Occ \cup ConstArgs : Resolve(o) = "intended") /\ CallOk
\* Every listed collision reaches a generated name.
HazardsReal == Hazards # {} => (\E o \in Occ \cup ConstArgs : Resolve(o) # "intended") \/ ~CallOk \/ Called \cap {"_0", "_1", "__formatter"} # {}
\* Neither edition nor prelude nor types, traits, modules, functions, macros matter.
OnlyValuesAndMethods == \A h \in Hazards : h.k = "binding" => \/ h.n \in NamesOf("cp") \cup PreludeValues
                                                              \/ \E i \in items \cup Own : i.name = h.n /\ i.kind \in {"const", "static", "unit", "tuplestruct"}
==================================================================================
