------------------------------- MODULE DeclGen -------------------------------
(* Writing a declaration attribute by attribute, field by field, variant by variant; then the derive     *)
(* judges it, and (Mode "sem") a value is chosen field by field and observed.                            *)
EXTENDS Decl, Json, TLC, SequencesExt

CONSTANTS Mode, MaxAt, MaxFields, MaxFieldAt, MaxVariants

VARIABLES d, phase, cur, vals
vars == <<d, phase, cur, vals>>

\* ---- what may be written in each mode -------------------------------------------------------------------
Kinds == CASE Mode = "item" -> {"struct", "enum", "union"}
           [] Mode \in {"enum", "enumsem", "semenum1", "semenumtypes"} -> {"enum"}
           [] OTHER -> {"struct"}
OuterAts == CASE Mode = "item" -> {"msg", "msgpos", "transparent", "fmt", "from", "source", "backtrace", "from()", "source()", "error()", "other"}
              [] Mode = "fields" -> {"msg", "transparent"}
              [] Mode = "fields3" -> {"msg"}
              [] Mode = "types" -> {"msg", "transparent"}
              [] Mode = "enum" -> {"msg", "transparent", "fmt", "msgpos"}
              [] Mode = "sem" -> {"msg", "transparent"}
              [] Mode = "semtypes" -> {"msg", "transparent"}
              [] Mode \in {"semenum1", "semenumtypes"} -> {}
              [] Mode = "enumsem" -> {"msg"}
VarAts == CASE Mode = "item" -> {"msg", "from", "backtrace", "transparent"}
            [] Mode = "enum" -> {"msg", "transparent", "fmt", "msgpos"}
            [] Mode \in {"semenum1", "semenumtypes"} -> {"msg", "transparent"}
            [] Mode = "enumsem" -> {"msg", "transparent"}
            [] OTHER -> {}
FieldAts == CASE Mode = "item" -> {"from", "msg"}
              [] Mode = "fields" -> {"from", "source", "backtrace", "msg", "transparent", "fmt", "from()"}
              [] Mode = "fields3" -> {"from", "source", "backtrace"}
              [] Mode = "types" -> {"from", "source", "backtrace", "source()", "backtrace()", "other"}
              [] Mode = "enum" -> {"from", "source"}
              [] Mode \in {"enumsem", "semtypes", "semenumtypes"} -> {"from", "source", "backtrace"}
              [] Mode \in {"sem", "semenum1"} -> {"from", "source", "backtrace", "from()"}
FieldTys == CASE Mode = "item" -> {"E"}
              [] Mode = "fields" -> {"E", "Bt", "OptE"}
              [] Mode = "fields3" -> {"E", "Bt", "OptBt"}
              [] Mode = "types" -> {"E", "OptE", "RefA", "RefStaticE", "OptRefA", "WA", "WStatic", "BoxWA", "PathWA", "Bt", "PathBt", "BtArgs",
                                    "OptBt", "MacroE", "MacroRefA", "MacroBt", "OptMacroE", "BoxMacroWA", "StdOptE", "Int"}
              [] Mode = "enum" -> {"E"}
              [] Mode = "sem" -> {"E", "OptE", "Bt", "OptBt", "Int"}
              [] Mode = "semenum1" -> {"E", "OptE", "Bt", "OptBt", "Int"}
              [] Mode \in {"semtypes", "semenumtypes"} -> {"E", "F", "OptE", "OptF", "OptBox", "StdOptE", "BoxDyn", "BoxDynSync", "BoxSyncUnwind", "BoxSend", "ArcDyn", "RefDyn", "OptBoxSend", "OptBoxE", "OptArcE", "BoxE", "ArcE", "RefStaticE", "T", "OptT", "MacroE",
                                       "OptMacroE", "Bt", "PathBt", "OptBt", "ArcBt", "MyBt", "MacroBt", "Int", "Str", "BtErr", "AliasBt", "OptTwo", "QBt", "QOptE", "Zero", "OptZero"}
              [] Mode = "enumsem" -> {"E", "F", "OptE", "Bt"}
FieldNms == CASE Mode \in {"types", "fields3", "sem", "semtypes", "semenumtypes", "semenum1"} -> {"a", "source", "r#source", "backtrace"}
              [] Mode = "enumsem" -> {"a", "source"}
              [] OTHER -> {"a"}
Styles == CASE Mode \in {"enum", "enumsem"} -> {"named", "tuple", "unit"} [] OTHER -> {"named", "tuple"}
Sem == Mode \in {"sem", "semtypes", "semenumtypes", "enumsem", "semenum1"}

EmptyV(style) == [at |-> <<>>, style |-> style, fs |-> <<>>]
NewField(nm, ty) == [nm |-> nm, ty |-> ty, at |-> <<>>]

Init == /\ \E k \in Kinds : d = [kind |-> k, at |-> <<>>, vs |-> <<>>]
        /\ phase = "outer" /\ cur = 0 /\ vals = <<>>

\* ---- transitions ---------------------------------------------------------------------------------------
AddOuterAttr ==
    /\ phase = "outer" /\ Len(d.at) < MaxAt
    /\ \E a \in OuterAts : d' = [d EXCEPT !.at = Append(@, a)]
    /\ UNCHANGED <<phase, cur, vals>>

LastV == d.vs[Len(d.vs)]
AddVariant ==
    /\ phase \in {"outer", "body"}
    /\ Len(d.vs) < (IF d.kind = "enum" THEN MaxVariants ELSE 1)
    /\ \E st \in (IF d.kind = "union" THEN {"named"} ELSE Styles) : d' = [d EXCEPT !.vs = Append(@, EmptyV(st))]
    /\ phase' = "body" /\ UNCHANGED <<cur, vals>>

SetLast(v) == d' = [d EXCEPT !.vs = [@ EXCEPT ![Len(d.vs)] = v]]
AddVariantAttr ==
    /\ phase = "body" /\ d.kind = "enum" /\ LastV.fs = <<>> /\ Len(LastV.at) < MaxAt
    /\ \E a \in VarAts : SetLast([LastV EXCEPT !.at = Append(@, a)])
    /\ UNCHANGED <<phase, cur, vals>>

FreeName(x) == \A i \in 1..Len(LastV.fs) : LastV.fs[i].nm # x
NthName(x) == IF x = "a" THEN <<"a", "b", "c", "d">>[Len(LastV.fs) + 1] ELSE x
AddField ==
    /\ phase = "body" /\ LastV.style # "unit" /\ Len(LastV.fs) < MaxFields
    /\ \E ty \in FieldTys : \E nm \in (IF LastV.style = "named" THEN FieldNms ELSE {""}) :
         /\ nm # "" => FreeName(NthName(nm)) /\ (nm \in {"source", "r#source"} => FreeName("source") /\ FreeName("r#source"))
         /\ SetLast([LastV EXCEPT !.fs = Append(@, NewField(IF nm = "" THEN "" ELSE NthName(nm), ty))])
    /\ UNCHANGED <<phase, cur, vals>>

AddFieldAttr ==
    /\ phase = "body" /\ LastV.fs # <<>>
    /\ Len(LastV.fs[Len(LastV.fs)].at) < MaxFieldAt
    /\ \E a \in FieldAts :
         SetLast([LastV EXCEPT !.fs = [@ EXCEPT ![Len(LastV.fs)] = [@ EXCEPT !.at = Append(@, a)]]])
    /\ UNCHANGED <<phase, cur, vals>>

\* Not judged: an error marker on a backtrace or on a foreign Option-like name, which Rust itself refuses.
Judgeable == \A i \in 1..Len(d.vs) : \A f \in Rng(d.vs[i].fs) : NamedBacktrace(f.ty) /\ f.ty # "BtErr" => ~HasAny(f.at, {"from"})

Emit(rec) == PrintT("CASE " \o ToJson(rec))

Derive ==
    /\ phase = "body" \/ (phase = "outer" /\ d.kind = "enum")
    /\ d.kind = "union" => Len(LastV.fs) > 0
    /\ Judgeable
    /\ IF Accepted(d) THEN (IF Sem THEN TypeChecks(d) /\ HasDisplay(d) /\ phase' = "value" ELSE phase' = "accepted")
       ELSE ~Sem /\ phase' = "rejected"
    /\ (~Sem => Emit([d |-> d, rules |-> Rules(d), display |-> HasDisplay(d)]))
    /\ cur' = 0 /\ UNCHANGED <<d, vals>>

\* A value: pick the variant, then each field's state.
PickVariant == /\ phase = "value" /\ cur = 0 /\ \E i \in 1..Len(d.vs) : cur' = i
               /\ UNCHANGED <<d, phase, vals>>
\* (Zero takes no space: there is nowhere to keep a backtrace)
FieldVals(ty) == IF ty = "Zero" THEN {"Plain"} ELSE IF ty = "OptZero" THEN {"None", "Some"} ELSE IF ErrorTy(ty) THEN {"Plain", "Bt"} ELSE IF OptErrorTy(ty) THEN {"None", "Some", "SomeBt"}
                 ELSE IF IsOption(ty) THEN {"None", "Some"} ELSE {"Plain"}
PickField == /\ phase = "value" /\ cur # 0 /\ Len(vals) < Len(d.vs[cur].fs)
             /\ \E x \in FieldVals(d.vs[cur].fs[Len(vals) + 1].ty) : vals' = Append(vals, x)
             /\ UNCHANGED <<d, phase, cur>>
Observe ==
    /\ phase = "value" /\ cur # 0 /\ Len(vals) = Len(d.vs[cur].fs)
    /\ LET v == d.vs[cur] IN
       Emit([d |-> d, cur |-> cur, vals |-> vals, source |-> SourceOf(d, v, vals), bt |-> BacktraceAnswer(d, v, vals),
             tag |-> TagAnswer(d, v, vals), froms |-> {[v |-> i, f |-> FromField(d.vs[i]), bt |-> BacktraceCaptured(d.vs[i]), ty |-> FromTy(d, i)] : i \in Froms(d)}])
    /\ phase' = "observed" /\ UNCHANGED <<d, cur, vals>>

Next == AddOuterAttr \/ AddVariant \/ AddVariantAttr \/ AddField \/ AddFieldAttr \/ Derive \/ PickVariant \/ PickField \/ Observe

\* ---- properties of the design ------------------------------------------------------------------------------
Done == phase \in {"accepted", "value", "observed"}
AtMostOneEach ==
    Done => \A i \in 1..Len(d.vs) : \A m \in Marker : Cardinality(Marked(d.vs[i].fs, m)) <= 1
\* A conversion can always construct the value: every field is the given error or a captured backtrace.
FromConstructible ==
    Done => \A i \in Froms(d) : \A j \in 1..Len(d.vs[i].fs) : j = FromField(d.vs[i]) \/ j = BacktraceField(d.vs[i])
\* The from field is the source field, unless the variant is transparent.
FromIsSource == Done => \A i \in Froms(d) : SourceField(d.vs[i]) = FromField(d.vs[i])
TransparentOneField == Done => \A i \in 1..Len(d.vs) : Transparent(d, d.vs[i]) => Len(d.vs[i].fs) = 1
NoProviderNoAnswer ==
    phase = "observed" => LET v == d.vs[cur] IN
        /\ BacktraceField(v) = 0 => BacktraceAnswer(d, v, vals) = <<"none", 0>> /\ TagAnswer(d, v, vals) = 0
        /\ (SourceOf(d, v, vals)[1] = "field" => vals[SourceOf(d, v, vals)[2]] # "None")
TextTotal == (Done /\ HasDisplay(d)) => \A i \in 1..Len(d.vs) : HasText(d, d.vs[i])
=============================================================================
