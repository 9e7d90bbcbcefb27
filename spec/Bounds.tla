--------------------------------- MODULE Bounds ---------------------------------
(* A generic error written field by field, and the trait solver: for which parameters is it text, an error, *)
(* and convertible. Parameters may be unsized (uns) and an enum's one message may be for all its variants. A type is a sequence of constructors ending in a leaf, e.g. <<"Option", "Box", "T">>.   *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS MaxFields, Tier

VARIABLES d, phase
vars == <<d, phase>>

\* ---- what the types implement -----------------------------------------------------------------------------
Ground == {"Full", "Disp", "Dbg", "Hex", "Nil", "Err"}
Fmt == {"Display", "Debug", "LowerHex", "Pointer"}
GroundImpl(g) == CASE g = "Full" -> Fmt \cup {"Error"} [] g = "Disp" -> {"Display"} [] g = "Dbg" -> {"Debug"} [] g = "Hex" -> {"LowerHex", "Pointer"}
                   [] g = "Nil" -> {} [] g = "Err" -> {"Display", "Debug", "Error"}
\* An associated type of each.
OutOf(g) == CASE g = "Full" -> "Err" [] g = "Disp" -> "Full" [] g = "Dbg" -> "Nil" [] g = "Hex" -> "Full" [] g = "Nil" -> "Disp" [] g = "Err" -> "Dbg"

Leaf(x, env) == CASE x = "T" -> env.T [] x = "U" -> env.U [] x = "T::Out" -> OutOf(env.T) [] x = "U::Out" -> OutOf(env.U) [] OTHER -> "Full"
RECURSIVE Impl(_, _, _)
Impl(tr, ty, env) ==    \* env.uns: what stands for T is unsized, which a Box of an error must not be
    LET h == ty[1] r == Tail(ty) IN
    CASE h \in {"T", "U", "T::Out", "U::Out", "P"} -> tr \in GroundImpl(Leaf(h, env))
      [] h \in {"Vec", "Option"} -> tr = "Debug" /\ Impl("Debug", r, env)
      [] h \in {"Box", "Arc"} -> tr = "Pointer" \/ (tr \in {"Display", "Debug", "Error"} /\ Impl(tr, r, env) /\ ~(h = "Box" /\ tr = "Error" /\ env.uns /\ r = <<"T">>))
      [] h = "Phantom" -> tr = "Debug"
      \* impl<X: Debug> Display for Wrap<X>, Debug always, impl<X: LowerHex> LowerHex, impl<X: Error> Error
      [] h = "Wrap" -> CASE tr = "Display" -> Impl("Debug", r, env) [] tr = "Debug" -> TRUE [] tr = "Pointer" -> FALSE [] OTHER -> Impl(tr, r, env)
      \* impl<X: Debug, Y: Display> Display for Pair<X, Y>; Debug always; impl<X: Error, Y: Error> Error
      [] h = "PairTU" -> CASE tr = "Display" -> "Debug" \in GroundImpl(env.T) /\ "Display" \in GroundImpl(env.U) [] tr = "Debug" -> TRUE
                           [] tr = "Error" -> "Error" \in GroundImpl(env.T) /\ "Error" \in GroundImpl(env.U) [] OTHER -> FALSE
      [] OTHER -> FALSE
Mentions(ty, p) == LET x == ty[Len(ty)] IN x = p \/ x = p \o "::Out" \/ x = "PairTU"

\* ---- declarations -------------------------------------------------------------------------------------------
Types == {<<"T">>, <<"U">>, <<"P">>, <<"Vec", "T">>, <<"Option", "T">>, <<"Box", "T">>, <<"Wrap", "T">>, <<"T::Out">>, <<"Option", "Box", "U">>,
          <<"Wrap", "Option", "T">>, <<"PairTU">>, <<"Arc", "U">>, <<"Arc", "T">>, <<"Phantom", "T">>,
          <<"Tup", "T">>, <<"Arr", "U">>, <<"Dyn", "T">>, <<"Fn", "U">>}
         \cup (IF Tier = "thorough" THEN {<<"Wrap", "U::Out">>, <<"Vec", "Wrap", "T">>, <<"Option", "Wrap", "U">>, <<"Box", "Option", "T">>, <<"Option", "T::Out">>} ELSE {})
Roles == {"none", "source", "from", "named", "transparent"}
\* arg: a placeholder of the field's name is answered by an explicit argument
Uses == {[fmts |-> s, arg |-> FALSE] : s \in {x \in SUBSET Fmt : Cardinality(x) <= 2}} \cup {[fmts |-> {}, arg |-> TRUE]}
Field(ty, role, use) == [ty |-> ty, role |-> role, use |-> use]

\* shared: one variant per field and one message, on the enum, for all of them
\* one: all fields in a struct or in one variant       each: one variant per field
Containers == {"struct", "tuple", "enum1", "each", "shared"}
Separate == d.c \in {"each", "shared"}
Init == \E c \in Containers, g \in {"always", "bounded"}, w \in {"none", "inline", "where"}, u \in BOOLEAN :
            d = [c |-> c, dbg |-> g, wh |-> w, uns |-> u, fs |-> <<>>] /\ phase = "write"

Inner(ty) == IF ty[1] = "Option" THEN Tail(ty) ELSE ty
IsSource(f) == f.role \in {"source", "from", "named"}
FieldOk(f) ==
    /\ f.role = "from" => Inner(f.ty)[1] \notin {"T", "U", "T::Out", "U::Out"}   \* From<T> for S<T> overlaps with the reflexive conversion
    /\ f.role = "transparent" => f.use.fmts = {} /\ ~f.use.arg
    /\ IsSource(f) => Inner(f.ty)[1] \notin {"Vec", "Phantom", "Option"}
    /\ f.role = "transparent" => f.ty[1] \notin {"Vec", "Option", "Phantom"}
    /\ f.role # "none" => f.ty # <<"P">>
    \* concrete types have to do what they are asked to
    \* types that are no paths get no bounds: they are never formatted here, only mentioned
    /\ f.ty[1] \in {"Tup", "Arr", "Dyn", "Fn"} => f.role = "none" /\ f.use.fmts = {}
    /\ d.uns /\ Mentions(f.ty, "T") => f.ty \in {<<"T">>, <<"Box", "T">>, <<"Arc", "T">>, <<"Phantom", "T">>, <<"Dyn", "T">>}
    /\ d.c = "shared" => f.role # "named"
    /\ d.c = "tuple" => f.role # "named" /\ ~f.use.arg
AddField ==
    /\ phase = "write" /\ Len(d.fs) < MaxFields
    /\ \E ty \in Types, r \in Roles, u \in Uses :
         LET f == Field(ty, r, u) IN
         /\ FieldOk(f)
         /\ (~Separate) => /\ IsSource(f) => \A i \in 1..Len(d.fs) : ~IsSource(d.fs[i]) /\ d.fs[i].role # "from"
                           /\ r = "from" => d.fs = <<>>
                           /\ (\A i \in 1..Len(d.fs) : d.fs[i].role \notin {"transparent", "from"})
                           /\ r = "transparent" => d.fs = <<>>
         /\ d.c = "shared" /\ d.fs # <<>> => u = d.fs[1].use /\ (r = "transparent") = (d.fs[1].role = "transparent")
         \* an unsized field is the last one of a struct
         /\ d.uns => (\A i \in 1..Len(d.fs) : d.fs[i].ty # <<"T">>) /\ (ty = <<"T">> => d.c \in {"struct", "tuple"} /\ r = "none")
         /\ Separate /\ r = "from" => \A i \in 1..Len(d.fs) : d.fs[i].role # "from"
         /\ d' = [d EXCEPT !.fs = Append(@, f)]
    /\ UNCHANGED phase

Params == {p \in {"T", "U"} : \E i \in 1..Len(d.fs) : Mentions(d.fs[i].ty, p)}
\* Where a clause asks T: Mark, only types that are Mark can be put there.
MarkTypes == {"Full", "Dbg", "Nil", "Err"}
Envs == {[T |-> t, U |-> u, uns |-> d.uns] : t \in (IF "T" \in Params THEN (IF d.wh = "none" THEN Ground ELSE MarkTypes) ELSE {"Full"}),
                               u \in (IF "U" \in Params THEN (IF d.wh = "none" THEN Ground ELSE MarkTypes) ELSE {"Full"})}

Generic(f) == \E p \in {"T", "U"} : Mentions(f.ty, p)
\* ---- the rules ------------------------------------------------------------------------------------------------
\* what the message formats
DisplayHolds(env) == \A i \in 1..Len(d.fs) : LET f == d.fs[i] IN
                        \A tr \in f.use.fmts \cup (IF f.role = "transparent" THEN {"Display"} ELSE {}) : Impl(tr, f.ty, env)
DebugHolds(env) == d.dbg = "always" \/ \A p \in Params : "Debug" \in GroundImpl(Leaf(p, env))
ErrorHolds(env) == /\ DebugHolds(env) /\ DisplayHolds(env)
                   /\ \A i \in 1..Len(d.fs) : LET f == d.fs[i] IN
                        /\ IsSource(f) => Impl("Error", Inner(f.ty), env)
                        /\ f.role = "transparent" => Impl("Error", f.ty, env)

Judge == /\ phase = "write" /\ d.fs # <<>> /\ Params # {} /\ (d.uns => "T" \in Params)
         \* a concrete use that no instantiation can repair is a type error, not a bound
         /\ \A i \in 1..Len(d.fs) : ~Generic(d.fs[i]) => \A tr \in d.fs[i].use.fmts : Impl(tr, d.fs[i].ty, [T |-> "Full", U |-> "Full", uns |-> FALSE])
         /\ phase' = "done" /\ UNCHANGED d
         /\ PrintT("CASE " \o ToJson([d |-> d, params |-> Params, envs |-> {[e |-> e, display |-> DisplayHolds(e), error |-> ErrorHolds(e)] : e \in Envs}]))
Next == AddField \/ Judge

\* ---- properties ---------------------------------------------------------------------------------------------------
Done == phase = "done"
ErrorImpliesText == Done => \A e \in Envs : ErrorHolds(e) => DisplayHolds(e) /\ DebugHolds(e)
UnusedImposesNothing == Done => ((\A i \in 1..Len(d.fs) : d.fs[i].use.fmts = {} /\ d.fs[i].role # "transparent") => \A e \in Envs : DisplayHolds(e))
FullSatisfiesAll == Done => ((\A i \in 1..Len(d.fs) : d.fs[i].use.fmts \subseteq {"Display", "Debug"} /\ d.fs[i].ty[1] \notin {"Vec", "Option", "Phantom"} ) =>
                        DebugHolds([T |-> "Full", U |-> "Full", uns |-> FALSE]))
=============================================================================
