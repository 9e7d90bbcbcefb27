----------------------------- MODULE FmtGrammar -----------------------------
(* The grammar of std::fmt format strings, as a reader of one-character strings.  This is the          *)
(* documented meaning of a message; nothing here knows how thiserror rewrites messages.                *)
(* The character ~ stands for a non-ASCII letter, % for a mark that continues a word and is no letter,  *)
(* ` for a non-ASCII character that is neither, @ for a non-ASCII                                       *)
(* blank: they are mapped to real characters when a behaviour is replayed.                             *)
EXTENDS Naturals, Sequences, TLC

Ch(s, i) == IF i >= 1 /\ i <= Len(s) THEN SubSeq(s, i, i) ELSE ""

Digit == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
AsciiLetter == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
                "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
IdentStart == AsciiLetter \cup {"_", "~"}
IdentCont == IdentStart \cup Digit \cup {"%"}
Blank == {" ", "\t", "@"}
AlignCh == {"<", "^", ">"}

RECURSIVE SkipDigits(_, _), SkipIdent(_, _), SkipBlank(_, _), Num(_, _, _)
SkipDigits(s, i) == IF Ch(s, i) \in Digit THEN SkipDigits(s, i + 1) ELSE i
SkipIdent(s, i) == IF Ch(s, i) \in IdentCont THEN SkipIdent(s, i + 1) ELSE i
SkipBlank(s, i) == IF Ch(s, i) \in Blank THEN SkipBlank(s, i + 1) ELSE i
Num(s, i, j) == IF i >= j THEN 0 ELSE Num(s, i, j - 1) * 10 + DigitVal(Ch(s, j - 1))

NoArg == [k |-> "next", n |-> 0, id |-> ""]
ArgPos(n) == [k |-> "pos", n |-> n, id |-> ""]
ArgId(x) == [k |-> "id", n |-> 0, id |-> x]

NoCount == [k |-> "none", n |-> 0, id |-> ""]

Fail == [ok |-> FALSE]

\* [argument]: returns the argument and the next position.
ParseArg(s, i) ==
    IF Ch(s, i) \in Digit
    THEN LET j == SkipDigits(s, i) IN [ok |-> TRUE, arg |-> ArgPos(Num(s, i, j)), next |-> j]
    ELSE IF Ch(s, i) \in IdentStart
    THEN LET j == SkipIdent(s, i) IN
         IF SubSeq(s, i, j - 1) = "_" THEN Fail
         ELSE [ok |-> TRUE, arg |-> ArgId(SubSeq(s, i, j - 1)), next |-> j]
    ELSE [ok |-> TRUE, arg |-> NoArg, next |-> i]

\* count := integer | argument '$'
ParseCount(s, i) ==
    IF Ch(s, i) \in Digit
    THEN LET j == SkipDigits(s, i) IN
         IF Ch(s, j) = "$" THEN [c |-> [k |-> "pos", n |-> Num(s, i, j), id |-> ""], next |-> j + 1]
         ELSE [c |-> [k |-> "lit", n |-> Num(s, i, j), id |-> ""], next |-> j]
    ELSE IF Ch(s, i) \in IdentStart
    THEN LET j == SkipIdent(s, i) IN
         IF Ch(s, j) = "$" THEN [c |-> [k |-> "id", n |-> 0, id |-> SubSeq(s, i, j - 1)], next |-> j + 1]
         ELSE [c |-> NoCount, next |-> i]
    ELSE [c |-> NoCount, next |-> i]

TraitOf(ty) ==
    CASE ty = "" -> "D" [] ty = "?" -> "?" [] ty = "x?" -> "?" [] ty = "X?" -> "?" [] ty = "o" -> "o" [] ty = "x" -> "x"
      [] ty = "X" -> "X" [] ty = "p" -> "p" [] ty = "b" -> "b" [] ty = "e" -> "e" [] ty = "E" -> "E" [] OTHER -> "bad"

\* format_spec, starting just after ':'
ParseSpec(s, i0) ==
    LET a == IF Ch(s, i0) # "" /\ Ch(s, i0 + 1) \in AlignCh
             THEN [fill |-> Ch(s, i0), align |-> Ch(s, i0 + 1), next |-> i0 + 2]
             ELSE IF Ch(s, i0) \in AlignCh
             THEN [fill |-> " ", align |-> Ch(s, i0), next |-> i0 + 1]
             ELSE [fill |-> " ", align |-> "", next |-> i0]
        i1 == a.next
        sign == IF Ch(s, i1) \in {"+", "-"} THEN Ch(s, i1) ELSE ""
        i2 == i1 + Len(sign)
        alt == Ch(s, i2) = "#"
        i3 == IF alt THEN i2 + 1 ELSE i2
        zero == Ch(s, i3) = "0" /\ Ch(s, i3 + 1) # "$"
        i4 == IF zero THEN i3 + 1 ELSE i3
        w == ParseCount(s, i4)
        i5 == w.next
        dot == Ch(s, i5) = "."
        p == IF ~dot THEN [c |-> NoCount, next |-> i5]
             ELSE IF Ch(s, i5 + 1) = "*" THEN [c |-> [k |-> "star", n |-> 0, id |-> ""], next |-> i5 + 2]
             ELSE ParseCount(s, i5 + 1)
        i6 == p.next
        ty == IF Ch(s, i6) = "?" THEN "?"
              ELSE IF Ch(s, i6) \in {"x", "X"} /\ Ch(s, i6 + 1) = "?" THEN SubSeq(s, i6, i6 + 1)
              ELSE SubSeq(s, i6, SkipIdent(s, i6) - 1)
        i7 == i6 + Len(ty)
    IN [bare |-> FALSE, fill |-> a.fill, align |-> a.align, sign |-> sign, alt |-> alt, zero |-> zero, width |-> w.c, prec |-> p.c,
        ty |-> ty, next |-> i7, ok |-> TraitOf(ty) # "bad"]

NoSpec(i) == [bare |-> TRUE, fill |-> " ", align |-> "", sign |-> "", alt |-> FALSE, zero |-> FALSE, width |-> NoCount, prec |-> NoCount,
              ty |-> "", next |-> i, ok |-> TRUE]

\* One placeholder whose '{' is at i.  Result: ok, arg, spec, next.
ParsePlaceholder(s, i) ==
    LET a == ParseArg(s, i + 1) IN
    IF ~a.ok THEN Fail
    ELSE LET sp == IF Ch(s, a.next) = ":" THEN ParseSpec(s, a.next + 1) ELSE NoSpec(a.next)
             j == SkipBlank(s, sp.next)
         IN IF sp.ok /\ Ch(s, j) = "}"
            THEN [ok |-> TRUE, arg |-> a.arg, spec |-> sp, next |-> j + 1]
            ELSE Fail

\* The message as a sequence of pieces [k |-> "lit", t] and [k |-> "ph", arg, spec]; <<>> with ok = FALSE if malformed.
RECURSIVE Pieces(_, _)
Pieces(s, i) ==
    IF i > Len(s) THEN [ok |-> TRUE, seq |-> <<>>]
    ELSE IF Ch(s, i) = "{" /\ Ch(s, i + 1) = "{"
    THEN LET r == Pieces(s, i + 2) IN [ok |-> r.ok, seq |-> <<[k |-> "lit", t |-> "{"]>> \o r.seq]
    ELSE IF Ch(s, i) = "}" /\ Ch(s, i + 1) = "}"
    THEN LET r == Pieces(s, i + 2) IN [ok |-> r.ok, seq |-> <<[k |-> "lit", t |-> "}"]>> \o r.seq]
    ELSE IF Ch(s, i) = "}" THEN [ok |-> FALSE, seq |-> <<>>]
    ELSE IF Ch(s, i) = "{"
    THEN LET p == ParsePlaceholder(s, i) IN
         IF ~p.ok THEN [ok |-> FALSE, seq |-> <<>>]
         ELSE LET r == Pieces(s, p.next) IN
              [ok |-> r.ok, seq |-> <<[k |-> "ph", arg |-> p.arg, spec |-> p.spec]>> \o r.seq]
    ELSE LET r == Pieces(s, i + 1) IN [ok |-> r.ok, seq |-> <<[k |-> "lit", t |-> Ch(s, i)]>> \o r.seq]

\* ---- meaning -----------------------------------------------------------------------------------------
\* A declaration context:
\*   unnamed : the container has unnamed fields (tuple struct / tuple variant with at least one field)
\*   fields  : sequence of field names (for unnamed containers "0", "1", ...)
\*   named   : sequence of [n, v] explicit named arguments       pos : sequence of unnamed argument values
\*   paths   : set of fields whose type is a path (not Display)
\*   scope   : set of names of constants visible outside
\* A placeholder value is [o |-> origin, n |-> name]; origin "f" field, "n" named arg, "p" positional, "c" constant.
\* Values print as their text; counts (width$/prec$) look up usize values through CountOf.

InSeq(x, q) == \E i \in 1..Len(q) : q[i] = x
NamedIdx(ctx, x) == {i \in 1..Len(ctx.named) : ctx.named[i].n = x}

Lookup(ctx, x) ==
    IF NamedIdx(ctx, x) # {} THEN [ok |-> TRUE, v |-> ctx.named[CHOOSE i \in NamedIdx(ctx, x) : TRUE].v, o |-> "n"]
    ELSE IF ~ctx.unnamed /\ InSeq(x, ctx.fields) THEN [ok |-> TRUE, v |-> x, o |-> "f"]
    ELSE IF x \in ctx.scope THEN [ok |-> TRUE, v |-> x, o |-> "c"]
    ELSE [ok |-> FALSE, v |-> "", o |-> "none"]

LookupPos(ctx, n) ==
    IF ctx.unnamed
    THEN IF n < Len(ctx.fields) THEN [ok |-> TRUE, v |-> ctx.fields[n + 1], o |-> "f"] ELSE [ok |-> FALSE, v |-> "", o |-> "none"]
    ELSE IF n < Len(ctx.pos) THEN [ok |-> TRUE, v |-> ctx.pos[n + 1], o |-> "p"] ELSE [ok |-> FALSE, v |-> "", o |-> "none"]

\* Explicit positions inside a spec (1$) always mean the extra positional arguments.
ArgPosOnly(ctx, n) == IF n < Len(ctx.pos) THEN [ok |-> TRUE, v |-> ctx.pos[n + 1], o |-> "p"] ELSE [ok |-> FALSE, v |-> "", o |-> "none"]

\* Numbers used as width or precision arguments carry their value in the text, e.g. "7".
CountText(ctx, c) ==
    CASE c.k = "none" -> [ok |-> TRUE, t |-> ""]
      [] c.k = "lit" -> [ok |-> TRUE, t |-> ToString(c.n)]
      [] c.k = "id" -> LET l == Lookup(ctx, c.id) IN [ok |-> l.ok /\ l.o \in {"n", "c"} /\ Ch(l.v, 1) \in Digit, t |-> l.v]
      [] c.k = "pos" -> LET l == ArgPosOnly(ctx, c.n) IN [ok |-> l.ok /\ Ch(l.v, 1) \in Digit, t |-> l.v]
      [] OTHER -> [ok |-> FALSE, t |-> ""]

FlagText(ctx, sp) ==
    LET w == CountText(ctx, sp.width)
        p == CountText(ctx, sp.prec)
        plain == sp.width.k = "none" /\ sp.prec.k = "none" /\ ~sp.alt /\ sp.sign # "+"
    IN [ok |-> w.ok /\ p.ok,
        t |-> (IF sp.align = "" THEN "" ELSE sp.fill \o sp.align) \o sp.sign \o (IF sp.alt THEN "#" ELSE "")
              \o (IF sp.zero THEN "0" ELSE "") \o (IF sp.width.k = "none" THEN "" ELSE "w" \o w.t)
              \o (IF sp.prec.k = "none" THEN "" ELSE "." \o p.t)
              \o (IF TraitOf(sp.ty) = "?" /\ plain THEN (IF sp.ty = "?" THEN "171" ELSE IF sp.ty = "x?" THEN "ab" ELSE "AB") ELSE "")]

\* The text of a probe value called v rendered with spec sp.
ProbeText(ctx, v, sp) ==
    LET f == FlagText(ctx, sp) IN
    IF v \in ctx.paths
    THEN [ok |-> sp.bare, t |-> "[path " \o v \o "]"]     \* lossy display of a path, plain placeholder only
    ELSE [ok |-> f.ok, t |-> "<" \o v \o ":" \o TraitOf(sp.ty) \o ":" \o f.t \o ">"]

\* Rendering of the pieces; pos counts the implicit positional arguments consumed so far.
RECURSIVE Render(_, _, _, _)
Render(ctx, q, i, pos) ==
    IF i > Len(q) THEN [ok |-> TRUE, t |-> "", used |-> pos]
    ELSE IF q[i].k = "lit"
    THEN LET r == Render(ctx, q, i + 1, pos) IN [ok |-> r.ok, t |-> q[i].t \o r.t, used |-> r.used]
    ELSE LET a == q[i].arg
             star == q[i].spec.prec.k = "star"
             \* `.*` takes the precision from the next positional argument, before the value
             cnt == IF star THEN LookupPos([ctx EXCEPT !.unnamed = FALSE], pos) ELSE [ok |-> TRUE, v |-> "", o |-> ""]
             p1 == IF star THEN pos + 1 ELSE pos
             l == CASE a.k = "next" -> LookupPos([ctx EXCEPT !.unnamed = FALSE], p1)
                    [] a.k = "pos" -> LookupPos(ctx, a.n)
                    [] a.k = "id" -> Lookup(ctx, a.id)
             p2 == IF a.k = "next" THEN p1 + 1 ELSE p1
             sp == IF star /\ cnt.ok /\ Ch(cnt.v, 1) \in Digit
                   THEN [q[i].spec EXCEPT !.prec = [k |-> "lit", n |-> Num(cnt.v, 1, Len(cnt.v) + 1), id |-> ""]]
                   ELSE q[i].spec
             x == IF l.ok THEN ProbeText(ctx, l.v, sp) ELSE [ok |-> FALSE, t |-> ""]
             r == Render(ctx, q, i + 1, p2)
         IN [ok |-> x.ok /\ cnt.ok /\ r.ok /\ (star => Ch(cnt.v, 1) \in Digit) /\ (l.ok => Ch(l.v, 1) \notin Digit \/ ctx.unnamed),
             t |-> x.t \o r.t, used |-> r.used]

Meaning(ctx, m) ==
    LET p == Pieces(m, 1) IN
    IF ~p.ok THEN [ok |-> FALSE, t |-> "", used |-> 0]
    ELSE Render(ctx, p.seq, 1, 0)

\* The (field, trait) pairs the message formats.
FieldUses(ctx, m) ==
    LET p == Pieces(m, 1) IN
    IF ~p.ok THEN {}
    ELSE {u \in {LET q == p.seq[i] IN
            IF q.k # "ph" THEN <<"", "">>
            ELSE LET l == CASE q.arg.k = "id" -> Lookup(ctx, q.arg.id)
                            [] q.arg.k = "pos" -> LookupPos(ctx, q.arg.n)
                            [] OTHER -> [ok |-> FALSE, v |-> "", o |-> ""]
                 IN IF l.ok /\ l.o = "f" THEN <<l.v, TraitOf(q.spec.ty)>> ELSE <<"", "">> : i \in 1..Len(p.seq)} : u[1] # ""}
=============================================================================
