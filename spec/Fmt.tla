--------------------------------- MODULE Fmt ---------------------------------
(* Construction of a message on a container, one fragment at a time, and its rendering.                *)
(*   state       : the container's field list, the message written so far, how many fragments          *)
(*   transitions : AddText, AddPlaceholder (builder), AddChar (character level), Render                *)
(* Render's outcome is the reference meaning of module FmtGrammar; the scanner of module FmtScan is    *)
(* checked to agree with it on every reachable message.                                                *)
EXTENDS FmtGrammar, FmtScan, FiniteSets, Json, SequencesExt

CONSTANTS Mode, MaxItems, Tier

VARIABLES shape, msg, n, phase
vars == <<shape, msg, n, phase>>

Shape(kind, fs) == [kind |-> kind, fields |-> fs]
Unnamed(sh) == sh.kind \in {"tuple", "vtuple"} /\ Len(sh.fields) > 0
PathsOf(sh) == IF Mode = "path" THEN {"path", "0", "p", "dir~", "dir%"} \cap {sh.fields[i] : i \in 1..Len(sh.fields)} ELSE {}
Ctx(sh) == [unnamed |-> Unnamed(sh), fields |-> sh.fields, named |-> <<>>, pos |-> <<>>, scope |-> {}, paths |-> PathsOf(sh)]

Idx(k) == [i \in 1..k |-> ToString(i - 1)]

SmallShapes == {Shape("struct", <<"x", "w">>), Shape("vtuple", <<"0", "1">>)}

\* Field lists: trait-letter names, prefixes of one another, keywords, Unicode, names like generated locals.
NamedLists == {<<"x">>, <<"x", "x1", "_x">>, <<"o", "e", "p", "b">>, <<"E", "X">>, <<"type", "fn", "match">>,
               <<"gr", "gr~", "gr~e">>, <<"n%", "n", "n%%~", "~%">>, <<"~">>, <<"self_", "f", "formatter", "request">>,
               <<"_display_x", "x", "_field_x">>, <<"_0", "_1", "field0">>, <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l">>,
               <<"source_", "backtrace_", "transparent", "fmt">>, <<"core", "std", "write", "Option">>, <<"async", "dyn", "await", "try">>,
               <<"X", "x">>, <<"err_1", "err_10", "err_100">>, <<"union", "auto", "raw", "macro_rules">>}
Shapes ==
    CASE Mode = "shape" -> {Shape(k, f) : k \in {"struct", "vstruct"}, f \in NamedLists}
                            \cup {Shape(k, Idx(c)) : k \in {"tuple", "vtuple"}, c \in {1, 2, 3, 10, 11, 12, 21}}
      [] Mode = "items" -> SmallShapes
      [] Mode = "path" -> {Shape("struct", <<"path">>), Shape("struct", <<"x", "p">>), Shape("vstruct", <<"path", "dir%", "dir~">>),
                           Shape("tuple", <<"0">>), Shape("vtuple", <<"0", "1">>)}
      [] Mode = "spec" -> SmallShapes
      [] Mode = "chars" -> {Shape("struct", <<"x", "~">>), Shape("tuple", <<"0", "1">>)}
      [] Mode = "long" -> {Shape("struct", <<"x", "x1", "g%~", "type", "p">>), Shape("vstruct", <<"e", "x", "_x">>),
                           Shape("tuple", Idx(11)), Shape("vtuple", Idx(3))}

\* ---- format specs ---------------------------------------------------------------------------------
FillAligns == {"", "<", "^", ">", "*<", "0>", "}>", "}<", "}^", "`^", "@<", "{^", "~^", "`>", "?<", "x>", ":<", ">>", "<^", "#>", " <", "o^", "1>", "$<", ".^", "_>"}
Signs == {"", "+", "-"}
Alts == {"", "#"}
Zeros == {"", "0"}
Widths == {"", "5", "10", "1"}
Precs == {"", ".3", ".0", ".12"}
Tys == {"", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E"}
Blanks == {"", " ", "  "}
Full == Tier = "thorough"
FewSpecs == {"", ":?", ":x", ":>8", ":#?", ":p", ":.3", ": ^5X", ":e", ":}<3o", ":b ", ":08.2E", ":~>7?", " ", ":", ":x?", ": ", "@", ":?\t", ":p@", ":X @"}
LongSpecs == FewSpecs \cup {":#x", ":+", ":-12", ":<3.1?", ":{>4", ":o", ":#010b", ":^9", ":_>6X", ":?>2", ":E", ":X?", ":#X?", ":.0?"}

Texts == {"t", " ", "{{", "}}", "~", "`", "{{x}}", "{{{{", "}}{{", "0", ":?}}", "'"}
LongTexts == Texts \cup {"{{0}}", "a}}b", "{{:?}}", "text with several words", "}}}}", "~`~", "{{{{x}}}}", "%s", "$x", "#", "n=1"}

Ph(f, s) == "{" \o f \o s \o "}"

Alphabet == {"{", "}", "x", ":", "?", "<", "0", " ", "~"} \cup (IF Full THEN {"p", "1"} ELSE {})

Init == /\ shape \in Shapes /\ msg = "" /\ n = 0 /\ phase = "build"

Add(t) == /\ phase = "build" /\ n < MaxItems
          /\ msg' = msg \o t /\ n' = n + 1
          /\ UNCHANGED <<shape, phase>>

FieldNames == {shape.fields[i] : i \in 1..Len(shape.fields)}

AddText == CASE Mode = "items" -> \E t \in Texts : Add(t)
             [] Mode = "long" -> \E t \in LongTexts : Add(t)
             [] Mode = "path" -> \E t \in {"{{"} : Add(t)
             [] Mode = "shape" -> \E t \in {"~}}"} : Add(t)
             [] OTHER -> FALSE
\* One placeholder, part by part: argument and fill/align, sign/#/0, width and precision, type and blanks.
AddSpecPart ==
    CASE n = 0 -> \E fa \in FillAligns : Add("{" \o shape.fields[1] \o ":" \o fa)
      [] n = 1 -> \E sg \in Signs, al \in Alts, z \in Zeros : Add(sg \o al \o z)
      [] n = 2 -> \E w \in (IF Full THEN Widths ELSE {"", "5"}), p \in (IF Full THEN {"", ".3", ".0"} ELSE {"", ".3"}) : Add(w \o p)
      [] n = 3 -> \E t \in Tys, bl \in (IF Full THEN {"", " "} ELSE {"", " "}) : Add(t \o bl \o "}")
      [] OTHER -> FALSE
AddPlaceholder ==
    CASE Mode = "items" -> \E f \in FieldNames, s \in FewSpecs : Add(Ph(f, s))
      [] Mode = "spec" -> AddSpecPart
      [] Mode = "path" -> \E f \in FieldNames, s \in {"", " ", "@", "\t", ":?"} : Add(Ph(f, s))
      [] Mode = "shape" -> \E f \in FieldNames, s \in {"", ":?", ":p", ":>4x"} : Add(Ph(f, s))
      [] Mode = "long" -> \E f \in FieldNames, s \in LongSpecs : Add(Ph(f, s))
      [] OTHER -> FALSE
AddChar == Mode = "chars" /\ \E c \in Alphabet : Add(c)

Show ==
    /\ phase = "build" /\ n > 0 /\ (Mode = "spec" => n = 4)
    /\ LET r == Meaning(Ctx(shape), msg) IN
       /\ (Mode = "long" => n = MaxItems)
       /\ (r.ok => PrintT("CASE " \o ToJson([kind |-> shape.kind, fields |-> shape.fields, m |-> msg, t |-> r.t, paths |-> PathsOf(shape)])))
       \* what std refuses is refused
       /\ (~r.ok /\ Mode = "chars" /\ n <= 4 => PrintT("CASE " \o ToJson([kind |-> shape.kind, fields |-> shape.fields, m |-> msg, bad |-> TRUE])))
       /\ phase' = IF r.ok THEN "rendered" ELSE "malformed"
    /\ UNCHANGED <<shape, msg, n>>

Next == AddText \/ AddPlaceholder \/ AddChar \/ Show

\* ---- design-level properties ------------------------------------------------------------------------
TypeOK == /\ phase \in {"build", "rendered", "malformed"} /\ n \in 0..MaxItems

\* The rewriting scanner preserves the meaning of every well-formed message (refinement).
ScannerRefinesGrammar ==
    (phase = "rendered") =>
       LET sc == Scan(Ctx(shape), msg) IN
       /\ sc.ok
       /\ RewrittenMeaning(Ctx(shape), sc) = Meaning(Ctx(shape), msg).t

\* The bounds the scanner derives are exactly the (field, trait) pairs the message formats.
ScannerBoundsExact ==
    (phase = "rendered") =>
       {<<b[1], b[2]>> : b \in Scan(Ctx(shape), msg).bounds} = FieldUses(Ctx(shape), msg)

\* Escapes: a message without placeholders renders as its unescaped text.
PlainText ==
    (phase = "rendered" /\ FieldUses(Ctx(shape), msg) = {}) => Scan(Ctx(shape), msg).bindings = <<>>
=============================================================================
