--------------------------------- MODULE Layers ---------------------------------
(* A transparent type around another type, layer by layer.                                                *)
(*   base  : what the innermost value is and whether it has a source                                       *)
(*   layer : how the declaration is written: struct or variant (its own or the enum's attribute), tuple     *)
(*           or named field, with or without #[from], and how it holds what it wraps                        *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS MaxLayers, Forms

VARIABLES base, layers, phase
vars == <<base, layers, phase>>

\* hold: plain  box Box<X>  arc Arc<X>  dyn Box<dyn Error>  sync Box<dyn Error + Send + Sync>  unwind ... + UnwindSafe
\*       gen  a type parameter instantiated with X     static &'static X     ref &'a X     dynref &'a (dyn Error + 'static)
\*       borrow  a type with a lifetime of its own around X     send arcdyn rc  other owners of a dynamic error
\*       bdyn bsend bsync bunwind  boxes of a dynamic error which may borrow     bref  &'a (dyn Error + Send + 'a)
Holds == {"plain", "box", "arc", "dyn", "send", "sync", "unwind", "arcdyn", "rc", "gen", "static", "ref", "dynref", "borrow", "bdyn", "bsend", "bsync", "bunwind", "bref"}
Borrowing == {"ref", "dynref", "borrow", "bdyn", "bsend", "bsync", "bunwind", "bref"}
Form(f, n, a) == [form |-> f, named |-> n, from |-> a]
AllForms == {Form(f, n, a) : f \in {"struct", "variant", "inherited"}, n \in BOOLEAN, a \in BOOLEAN}
FewForms == {Form("struct", FALSE, FALSE), Form("variant", TRUE, TRUE), Form("inherited", FALSE, TRUE)}
\* The base's own source: none, a field, a chain of two, or (a derived base) its message with a source field.
\* (zero: a type that takes no space, whose source is found elsewhere).
Bases == [kind : {"manual", "derived", "zero"}, src : {0, 1, 2}, borrowed : {FALSE}] \cup [kind : {"manual", "derived"}, src : {0}, borrowed : {TRUE}]

\* An error with a lifetime of its own cannot be boxed as a 'static one, nor be marked as a source.
Open == base.borrowed \/ \E i \in 1..Len(layers) : layers[i].hold \in Borrowing
\* #[from] makes the field the source, which must not borrow; From<T> for S<T> and dyn forms conflict in no way here.
Held == {layers[i].hold : i \in 1..Len(layers)}
IsSync == Held \cap {"dyn", "send", "rc", "bdyn", "bsend", "dynref", "bref"} = {}
\* what is shared must be Sync to be sent
IsSend == /\ Held \cap {"dyn", "rc", "bdyn", "dynref"} = {}
          /\ \A i, j \in 1..Len(layers) : i < j /\ layers[i].hold \in {"send", "bsend", "bref"} => layers[j].hold \notin {"arc", "static", "ref", "borrow"}
          /\ "bref" \notin Held
Ok(l) == /\ (l.from => ~Open /\ l.hold \notin Borrowing \cup {"gen"})
         /\ (l.hold \in {"dyn", "send", "sync", "unwind", "arcdyn", "rc", "static", "dynref"} => ~Open)
         \* Send, Sync and UnwindSafe have to hold for what goes behind such a box
         /\ (l.hold \in {"send", "bsend", "bref"} => IsSend)
         /\ (l.hold \in {"sync", "bsync", "arcdyn"} => IsSync)
         /\ (l.hold \in {"unwind", "bunwind"} => Held \subseteq {"plain", "box", "gen", "unwind", "bunwind"})
Init == base \in Bases /\ layers = <<>> /\ phase = "write"
Wrap == /\ phase = "write" /\ Len(layers) < MaxLayers
        /\ \E f \in (IF Forms = "all" THEN AllForms ELSE FewForms), h \in Holds :
             LET l == [form |-> f.form, named |-> f.named, from |-> f.from, hold |-> h] IN
             Ok(l) /\ layers' = Append(layers, l)
        /\ UNCHANGED <<base, phase>>

\* What the outermost value shows: exactly the base, however many layers there are.
\* (a message of its own does not look at the caller's options).
Show(n, fl) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN "<base:D:" \o (IF base.kind # "derived" THEN fl ELSE "") \o ">" ELSE S(k - 1) IN S(n)
SourceChain(n) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN [i \in 1..base.src |-> "s" \o ToString(i)] ELSE S(k - 1) IN S(n)

Flags == <<"", " >w9", " ^+#0w8.3", "*<-w4.0", "#">>
Observe == /\ phase = "write" /\ layers # <<>> /\ phase' = "done" /\ UNCHANGED <<base, layers>>
           /\ PrintT("CASE " \o ToJson([base |-> base, layers |-> layers, texts |-> [k \in 1..Len(Flags) |-> Show(Len(layers), Flags[k])],
                     chain |-> SourceChain(Len(layers))]))
Next == Wrap \/ Observe

\* A layer changes nothing that can be observed.
Seen == [t |-> [k \in 1..Len(Flags) |-> Show(Len(layers), Flags[k])], c |-> SourceChain(Len(layers))]
Invisible == [][layers' # layers => Seen' = Seen]_vars
NeverItself == phase = "done" => \A i \in 1..Len(SourceChain(Len(layers))) : SourceChain(Len(layers))[i] # "base"
=============================================================================
