------------------------------- MODULE FmtScan -------------------------------
(* Algorithm model of the message rewriter (impl/src/fmt.rs, expand_shorthand): a single left-to-right *)
(* pass that only looks for '{', reads an integer or identifier, finds the end of the spec, chooses a  *)
(* wrapper from the last character of the spec and replaces the member by a generated local.           *)
(* Module Fmt checks that this pass refines the grammar of FmtGrammar.                                 *)
EXTENDS FmtGrammar

RECURSIVE FindCh(_, _, _), LastNonBlank(_, _, _)
FindCh(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindCh(s, c, i + 1)
\* last non-blank character of s[a..b], "" if none
LastNonBlank(s, a, b) == IF b < a THEN "" ELSE IF Ch(s, b) \in Blank THEN LastNonBlank(s, a, b - 1) ELSE Ch(s, b)

TraitOfLast(c) ==
    CASE c = "?" -> "?" [] c = "o" -> "o" [] c = "x" -> "x" [] c = "X" -> "X" [] c = "p" -> "p" [] c = "b" -> "b"
      [] c = "e" -> "e" [] c = "E" -> "E" [] OTHER -> "D"

RECURSIVE Fresh(_, _)
Fresh(names, v) == IF InSeq(v, names) THEN Fresh(names, "_" \o v) ELSE v
ArgNames(ctx) == [i \in 1..Len(ctx.named) |-> ctx.named[i].n]

St(ok, out, bindings, bounds, bonus) == [ok |-> ok, out |-> out, bindings |-> bindings, bounds |-> bounds, bonus |-> bonus]

Bound(st, v) == \E i \in 1..Len(st.bindings) : st.bindings[i].local = v

RECURSIVE ScanFrom(_, _, _, _)
ScanFrom(ctx, m, i, st) ==
    LET b == FindCh(m, "{", i) IN
    IF b = 0 THEN [st EXCEPT !.out = @ \o SubSeq(m, i, Len(m))]
    ELSE
    LET st1 == [st EXCEPT !.out = @ \o SubSeq(m, i, b)]
        c == Ch(m, b + 1)
    IN
    IF c = "{" THEN ScanFrom(ctx, m, b + 2, [st1 EXCEPT !.out = @ \o "{"])
    ELSE IF c = "" THEN [st EXCEPT !.ok = FALSE]
    ELSE IF c \notin Digit \cup IdentStart THEN ScanFrom(ctx, m, b + 1, st1)
    ELSE
    LET isnum == c \in Digit
        j == IF isnum THEN SkipDigits(m, b + 1) ELSE SkipIdent(m, b + 1)
        repr == IF isnum THEN ToString(Num(m, b + 1, j)) ELSE SubSeq(m, b + 1, j - 1)
    IN
    IF ~isnum /\ (repr = "_" \/ InSeq(repr, ArgNames(ctx)))
    THEN ScanFrom(ctx, m, j, [st1 EXCEPT !.out = @ \o repr])
    ELSE
    LET fill == Ch(m, j) = ":" /\ Ch(m, j + 1) # "" /\ Ch(m, j + 2) \in AlignCh
        e == FindCh(m, "}", IF fill THEN j + 2 ELSE j)
    IN
    IF e = 0 THEN [st EXCEPT !.ok = FALSE]
    ELSE
    LET last == LastNonBlank(m, j, e - 1)
        bonus == last = ""
        tr == TraitOfLast(last)
        known == IF isnum THEN ctx.unnamed /\ Num(m, b + 1, j) < Len(ctx.fields)
                 ELSE ~ctx.unnamed /\ InSeq(repr, ctx.fields)
    IN
    IF ~known THEN ScanFrom(ctx, m, j, [st1 EXCEPT !.out = @ \o repr])
    ELSE
    LET pre == IF bonus THEN "__display" ELSE IF tr = "p" THEN "__pointer" ELSE "__field"
        v == Fresh(ArgNames(ctx), pre \o (IF isnum THEN repr ELSE "_" \o repr))
        st2 == [st1 EXCEPT !.out = @ \o v, !.bounds = @ \cup {<<repr, tr>>}, !.bonus = @ \/ bonus]
    IN ScanFrom(ctx, m, j,
         IF Bound(st2, v) THEN st2
         ELSE [st2 EXCEPT !.bindings = Append(@, [local |-> v, f |-> repr, wrap |-> pre])])

Scan(ctx, m) == ScanFrom(ctx, m, 1, St(TRUE, "", <<>>, {}, FALSE))

\* Meaning of the rewritten message: the generated locals stand for fields, everything else is ordinary.
\* Pointer formatting through a plain reference would print an address, and a path is rendered by its
\* display adapter, so the wrapper must match the trait.
RECURSIVE RenderRw(_, _, _, _)
RenderRw(ctx, sc, q, i) ==
    IF i > Len(q) THEN ""
    ELSE IF q[i].k = "lit" THEN q[i].t \o RenderRw(ctx, sc, q, i + 1)
    ELSE LET hits == {k \in 1..Len(sc.bindings) : q[i].arg.k = "id" /\ sc.bindings[k].local = q[i].arg.id} IN
         IF hits # {}
         THEN LET bd == sc.bindings[CHOOSE k \in hits : TRUE]
                  tr == TraitOf(q[i].spec.ty)
                  good == /\ (tr = "p") = (bd.wrap = "__pointer")
                          /\ bd.f \in ctx.paths => bd.wrap = "__display"
              IN (IF good THEN ProbeText(ctx, bd.f, q[i].spec).t ELSE "!address") \o RenderRw(ctx, sc, q, i + 1)
         ELSE LET l == IF q[i].arg.k = "id" THEN Lookup([ctx EXCEPT !.fields = <<>>], q[i].arg.id) ELSE LookupPos([ctx EXCEPT !.unnamed = FALSE], q[i].arg.n) IN
              (IF l.ok THEN ProbeText(ctx, l.v, q[i].spec).t ELSE "!undefined") \o RenderRw(ctx, sc, q, i + 1)

RewrittenMeaning(ctx, sc) ==
    LET p == Pieces(sc.out, 1) IN IF p.ok THEN RenderRw(ctx, sc, p.seq, 1) ELSE "!malformed"
=============================================================================
