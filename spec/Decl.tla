-------------------------------- MODULE Decl ---------------------------------
(* Declarations, the rules they must obey, and what an accepted declaration means.                      *)
(*   attribute token : "msg" #[error("..")]   "msgpos" #[error("{0} {}", 1)]   "transparent"   "fmt"      *)
(*                     "from" "source" "backtrace"    "from()" #[from(x)] (another derive's)             *)
(*                     "source()" "backtrace()" "error()" malformed       "other" an unrelated attribute *)
(*   field   : [nm, ty, at]      nm = "" in a tuple                                                      *)
(*   variant : [at, style, fs]   style "named" "tuple" "unit"                                            *)
(*   decl    : [kind, at, vs]    kind "struct" (one variant, at = <<>>) "enum" "union"                   *)
EXTENDS Naturals, Sequences, FiniteSets

Rng(q) == {q[i] : i \in 1..Len(q)}
Has(at, x) == x \in Rng(at)
HasAny(at, S) == Rng(at) \cap S # {}
Count(at, S) == Cardinality({i \in 1..Len(at) : at[i] \in S})
MsgLike == {"msg", "msgpos"}
DisplayLike == MsgLike \cup {"transparent", "fmt"}
Marker == {"from", "source", "backtrace"}

\* ---- types --------------------------------------------------------------------------------------------
IsOption(ty) == ty \in {"OptE", "OptF", "OptBt", "OptRefA", "OptBox", "OptArcBt", "StdOptE", "OptT", "OptMacroE", "OptBoxSend", "QOptE", "OptBoxE", "OptArcE", "OptZero"}
\* BtErr: an error type of the user's own that is called Backtrace; AliasBt and OptTwo: other types with such names and arguments
NamedBacktrace(ty) == ty \in {"Bt", "PathBt", "MacroBt", "BtErr", "QBt"}
NonStatic(ty) == ty \in {"RefA", "OptRefA", "WA", "BoxWA", "PathWA", "MacroRefA", "BoxMacroWA"}

\* ---- rules --------------------------------------------------------------------------------------------
R(c, r) == IF c THEN {r} ELSE {}

ItemRules(at) ==
    R(Count(at, MsgLike) > 1, "dup-msg") \cup R(Count(at, {"transparent"}) > 1, "dup-transparent")
    \cup R(Count(at, {"fmt"}) > 1, "dup-fmt") \cup R(Count(at, {"source"}) > 1, "dup-source")
    \cup R(Count(at, {"from"}) > 1, "dup-from") \cup R(Count(at, {"backtrace"}) > 1, "dup-backtrace")
    \cup R(HasAny(at, {"source()", "backtrace()", "error()"}), "malformed")

\* Attributes of a struct, an enum or a variant.
OuterRules(at) ==
    R(Has(at, "from"), "outer-from") \cup R(Has(at, "source"), "outer-source") \cup R(Has(at, "backtrace"), "outer-backtrace")
    \cup R(Has(at, "transparent") /\ HasAny(at, MsgLike), "transparent-msg")
    \cup R(Has(at, "transparent") /\ Has(at, "fmt"), "transparent-fmt")
    \cup R(HasAny(at, MsgLike) /\ Has(at, "fmt"), "msg-fmt")

Marked(fs, m) == {i \in 1..Len(fs) : Has(fs[i].at, m)}
TypedBt(fs) == {i \in 1..Len(fs) : NamedBacktrace(fs[i].ty)}

FieldRules(fs) ==
    LET fm == Marked(fs, "from") sr == Marked(fs, "source") bt == Marked(fs, "backtrace") IN
    UNION {ItemRules(fs[i].at) : i \in 1..Len(fs)}
    \cup R(\E i \in 1..Len(fs) : HasAny(fs[i].at, MsgLike \cup {"fmt"}), "field-display")
    \cup R(Marked(fs, "transparent") # {}, "field-transparent")
    \cup R(Cardinality(fm) > 1, "dup-from") \cup R(Cardinality(sr) > 1, "dup-source") \cup R(Cardinality(bt) > 1, "dup-backtrace")
    \cup R(\E i \in fm, j \in sr : i # j, "from-not-source")
    \cup R(\E i \in fm : \E j \in 1..Len(fs) : j # i /\ j \notin bt /\ (bt # {} \/ j \notin TypedBt(fs)), "from-other-field")
    \cup R(\E i \in fm : bt = {} /\ Cardinality(TypedBt(fs) \ {i}) > 1, "from-other-field")
    \cup R(\E i \in (IF sr # {} THEN sr ELSE fm) : NonStatic(fs[i].ty), "lifetime")

BodyRules(eff, style, fs) ==
    R(Has(eff, "transparent") /\ Len(fs) # 1, "transparent-fields")
    \cup R(Has(eff, "transparent") /\ Marked(fs, "source") # {}, "transparent-source")
    \cup R(Has(eff, "msgpos") /\ style = "tuple" /\ Len(fs) > 0, "ambiguous")
    \cup FieldRules(fs)

\* What a variant displays: its own attribute, otherwise the enum's.
Effective(d, v) == IF d.kind = "enum" /\ ~HasAny(v.at, DisplayLike)
                   THEN v.at \o SelectSeq(d.at, LAMBDA a : a \in DisplayLike) ELSE IF d.kind = "enum" THEN v.at ELSE d.at
HasText(d, v) == HasAny(Effective(d, v), DisplayLike)

\* Text is derived for the whole enum.
EnumText(d) ==
    \/ HasAny(d.at, DisplayLike)
    \/ \E i \in 1..Len(d.vs) : HasAny(d.vs[i].at, MsgLike \cup {"fmt"})
    \/ \A i \in 1..Len(d.vs) : Has(Effective(d, d.vs[i]), "transparent")
HasDisplay(d) == IF d.kind = "enum" THEN EnumText(d) ELSE HasAny(d.at, DisplayLike)

Rules(d) ==
    R(d.kind = "union", "union")
    \cup ItemRules(d.at) \cup OuterRules(d.at)
    \cup (IF d.kind = "enum"
          THEN UNION {ItemRules(d.vs[i].at) \cup OuterRules(Effective(d, d.vs[i]))
                      \cup BodyRules(Effective(d, d.vs[i]), d.vs[i].style, d.vs[i].fs) : i \in 1..Len(d.vs)}
               \cup R(EnumText(d) /\ \E i \in 1..Len(d.vs) : ~HasText(d, d.vs[i]), "missing-text")
          ELSE R(d.kind = "struct" /\ Has(d.at, "fmt"), "struct-fmt")
               \cup UNION {BodyRules(d.at, d.vs[i].style, d.vs[i].fs) : i \in 1..Len(d.vs)})

Accepted(d) == Rules(d) = {}

\* ---- meaning of an accepted declaration ------------------------------------------------------------------
First(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y

SourceField(v) ==
    LET m == Marked(v.fs, "from") \cup Marked(v.fs, "source")
        byname == {i \in 1..Len(v.fs) : v.fs[i].nm = "source"} IN
    IF m # {} THEN First(m) ELSE First(byname)
BacktraceField(v) == LET m == Marked(v.fs, "backtrace") IN IF m # {} THEN First(m) ELSE First(TypedBt(v.fs))
FromField(v) == First(Marked(v.fs, "from"))
Transparent(d, v) == Has(Effective(d, v), "transparent")

\* source() of a value: <<"none">>, <<"field", i>> or <<"inner", i>> (what field i itself answers).
SourceOf(d, v, vals) ==
    IF Transparent(d, v) THEN <<"inner", 1>>
    ELSE LET s == SourceField(v) IN
         IF s = 0 THEN <<"none", 0>>
         ELSE IF IsOption(v.fs[s].ty) /\ vals[s] = "None" THEN <<"none", 0>>
         ELSE <<"field", s>>

\* Who is asked, in order, when a request arrives: ["fwd", i] the source, ["own", i] the backtrace field.
Ask(k, i) == [k |-> k, i |-> i]
Providers(d, v) ==
    LET b == BacktraceField(v) s == SourceField(v) explicit == Marked(v.fs, "backtrace") # {} IN
    IF b = 0 THEN <<>>
    ELSE IF s = 0 THEN <<Ask("own", b)>>
    ELSE IF s = b THEN <<Ask("fwd", s)>>
    ELSE IF d.kind = "enum" /\ explicit THEN <<Ask("own", b)>>
    ELSE <<Ask("fwd", s), Ask("own", b)>>

\* Present providers in a value: a None answers nothing.
Live(d, v, vals) == SelectSeq(Providers(d, v), LAMBDA p : ~(IsOption(v.fs[p.i].ty) /\ vals[p.i] = "None"))

\* The backtrace answered: the first that has one.  A source has one iff its value says so.
Answers(p, vals) == p.k = "own" \/ vals[p.i] \in {"Bt", "SomeBt"}
BacktraceAnswer(d, v, vals) ==
    LET l == Live(d, v, vals)
        hits == {i \in 1..Len(l) : Answers(l[i], vals)} IN
    IF hits = {} THEN <<"none", 0>> ELSE <<l[First(hits)].k, l[First(hits)].i>>
\* Any other request is answered only by forwarding.
TagAnswer(d, v, vals) ==
    LET l == Live(d, v, vals)
        hits == {i \in 1..Len(l) : l[i].k = "fwd"} IN
    IF hits = {} THEN 0 ELSE l[First(hits)].i

\* Conversions: one per field marked from, given the type inside Option.
Froms(d) == {i \in 1..Len(d.vs) : FromField(d.vs[i]) # 0}
BacktraceCaptured(v) == LET b == BacktraceField(v) IN IF FromField(v) # 0 /\ b # 0 /\ b # FromField(v) THEN b ELSE 0

\* ---- Rust's type rules, as far as generated code can run into them ----------------------------------------
ErrorTy(ty) == ty \in {"E", "F", "BoxDyn", "BoxE", "ArcE", "RefStaticE", "T", "MacroE", "BoxDynSync", "BoxSyncUnwind", "WStatic", "BoxSend", "ArcDyn", "RefDyn", "BtErr", "AliasBt", "OptTwo", "Zero"}
OptErrorTy(ty) == ty \in {"QOptE", "OptE", "OptF", "OptBox", "StdOptE", "OptT", "OptMacroE", "OptBoxSend", "OptBoxE", "OptArcE", "OptZero"}
BtTy(ty) == ty \in {"Bt", "PathBt", "OptBt", "ArcBt", "MyBt", "MacroBt", "BtErr", "QBt"}
VariantTypeChecks(d, v) ==
    LET s == SourceField(v) IN
    /\ Transparent(d, v) => ErrorTy(v.fs[1].ty)
    /\ ~Transparent(d, v) /\ s # 0 => ErrorTy(v.fs[s].ty) \/ OptErrorTy(v.fs[s].ty)
    /\ \A k \in 1..Len(Providers(d, v)) :
         LET p == Providers(d, v)[k] IN
         IF p.k = "own" THEN BtTy(v.fs[p.i].ty) ELSE ErrorTy(v.fs[p.i].ty) \/ OptErrorTy(v.fs[p.i].ty)
    /\ BacktraceCaptured(v) # 0 => BtTy(v.fs[BacktraceCaptured(v)].ty)
InnerTy(ty) == CASE ty \in {"OptE", "StdOptE", "MacroE", "OptMacroE", "QOptE", "AliasBt", "OptTwo"} -> "E" [] ty = "OptF" -> "F" [] ty = "OptBox" -> "BoxDyn" [] ty = "OptBoxSend" -> "BoxSend" [] ty = "OptBoxE" -> "BoxE" [] ty = "OptArcE" -> "ArcE" [] ty = "OptT" -> "T" [] ty = "OptZero" -> "Zero" [] OTHER -> ty
FromTy(d, i) == InnerTy(d.vs[i].fs[FromField(d.vs[i])].ty)
TypeChecks(d) ==
    /\ \A i \in 1..Len(d.vs) : VariantTypeChecks(d, d.vs[i])
    /\ \A i, j \in Froms(d) : i # j => FromTy(d, i) # FromTy(d, j)
=============================================================================
