------------------------------- MODULE ScanExpr -------------------------------
(* Algorithm model of the argument-boundary scanner (impl/src/scan_expr.rs): a table-driven automaton    *)
(* over token trees.  A token is <<class, text>>; groups are single tokens <<"paren"|"brace"|"brack",    *)
(* contents>>.  Classes: kw p lit id path lt type tf paren brace brack.                                  *)
EXTENDS Naturals, Sequences

TokAt(q, i) == IF i <= Len(q) THEN q[i] ELSE <<"end", "">>
Cls(q, i) == TokAt(q, i)[1]
IsKw(q, i, w) == Cls(q, i) = "kw" /\ TokAt(q, i)[2] = w
IsP(q, i, w) == Cls(q, i) = "p" /\ TokAt(q, i)[2] = w
Group == {"paren", "brace", "brack"}
BinOps == {"+", "-", "*", "/", "%", "^", "&", "|", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||",
           "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>="}
AtEnd(q, i) == i > Len(q) \/ IsP(q, i, ",")
CanBegin(q, i) == Cls(q, i) \in {"id", "path", "kw", "lit", "lt"} \cup Group \/
                  (Cls(q, i) = "p" /\ TokAt(q, i)[2] \in {"!", "-", "*", "|", "||", "&", "&&", "..", "..=", "<", "::", "#"})

\* A rule: [in, arg, n (tokens consumed if it matches), act, to]
Rule(in, arg, act, to) == [in |-> in, arg |-> arg, act |-> act, to |-> to]
S(in, arg, to) == Rule(in, arg, "set", to)

Table == [
 INIT |-> <<S("delim", "", "POSTFIX"), S("kw", "async", "ASYNC"), S("kw", "break", "BREAK_LABEL"), S("kw", "const", "CONST"),
            S("kw", "continue", "CONTINUE"), S("kw", "for", "FOR"), Rule("kw", "if", "inc", "INIT"), S("kw", "let", "PATTERN"),
            S("kw", "loop", "BLOCK"), Rule("kw", "match", "inc", "INIT"), S("kw", "move", "CLOSURE"), S("kw", "return", "RETURN"),
            S("kw", "static", "CLOSURE"), S("kw", "unsafe", "BLOCK"), Rule("kw", "while", "inc", "INIT"), S("kw", "yield", "RETURN"),
            S("kw", "_", "POSTFIX"), S("p", "!", "INIT"), S("p", "#", "ATTR"), S("p", "&", "REFERENCE"), S("p", "*", "INIT"),
            S("p", "-", "INIT"), S("p", "..=", "INIT"), S("p", "..", "RANGE"), S("p", "|", "CLOSURE_ARGS"), S("lt", "", "LABEL"),
            S("lit", "", "POSTFIX"), S("path", "", "PATH")>>,
 ATTR |-> <<S("delim", "", "INIT")>>,
 LABEL |-> <<S("p", ":", "INIT")>>,
 POSTFIX |-> <<S("kw", "as", "AS"), S("p", "..=", "INIT"), S("p", "..", "RANGE"), S("p", ".", "DOT"), S("p", "?", "POSTFIX"),
               S("binop", "", "INIT"), S("p", "=", "INIT"), S("nested", "", "IF_THEN"), S("delim", "", "POSTFIX"),
               Rule("empty", "", "finish", "")>>,
 AS |-> <<S("type", "", "POSTFIX")>>,
 ASYNC |-> <<S("kw", "move", "ASYNC"), S("p", "|", "CLOSURE_ARGS"), S("brace", "", "POSTFIX")>>,
 BLOCK |-> <<S("brace", "", "POSTFIX")>>,
 BREAK_LABEL |-> <<S("lt", "", "BREAK_VALUE"), S("else", "", "BREAK_VALUE")>>,
 BREAK_VALUE |-> <<S("nested", "", "IF_THEN"), S("begin", "", "INIT"), S("else", "", "POSTFIX")>>,
 CLOSURE |-> <<S("kw", "async", "CLOSURE"), S("kw", "move", "CLOSURE"), S("p", ",", "CLOSURE"), S("p", ">", "CLOSURE"),
               S("p", "|", "CLOSURE_ARGS"), S("lt", "", "CLOSURE")>>,
 CLOSURE_ARGS |-> <<S("p", "|", "CLOSURE_RET"), S("any", "", "CLOSURE_ARGS")>>,
 CLOSURE_RET |-> <<S("p", "->", "RET_TYPE"), S("else", "", "INIT")>>,
 RET_TYPE |-> <<S("type", "", "BLOCK")>>,
 CONST |-> <<S("p", "|", "CLOSURE_ARGS"), S("brace", "", "POSTFIX")>>,
 CONTINUE |-> <<S("lt", "", "POSTFIX"), S("else", "", "POSTFIX")>>,
 DOT |-> <<S("kw", "await", "POSTFIX"), S("id", "", "METHOD"), S("lit", "", "POSTFIX")>>,
 FOR |-> <<S("p", "<", "CLOSURE"), S("else", "", "PATTERN")>>,
 IF_ELSE |-> <<S("kw", "if", "INIT"), Rule("brace", "", "dec", "")>>,
 IF_THEN |-> <<S("kw", "else", "IF_ELSE"), Rule("else", "", "dec", "")>>,
 METHOD |-> <<S("turbofish", "", "POSTFIX")>>,
 PATH |-> <<S("p", "!=", "INIT"), S("p", "!", "INIT"), S("nested", "", "IF_THEN"), S("else", "", "POSTFIX")>>,
 PATTERN |-> <<S("delim", "", "PATTERN"), S("kw", "box", "PATTERN"), Rule("kw", "in", "inc", "INIT"), S("kw", "mut", "PATTERN"),
               S("kw", "ref", "PATTERN"), S("kw", "_", "PATTERN"), S("p", "!", "PATTERN"), S("p", "&", "PATTERN"), S("p", "..=", "PATTERN"),
               S("p", "..", "PATTERN"), S("p", "=", "INIT"), S("p", "@", "PATTERN"), S("p", "|", "PATTERN"), S("lit", "", "PATTERN"),
               S("path", "", "PATTERN")>>,
 RANGE |-> <<S("p", "..=", "INIT"), S("p", "..", "RANGE"), S("p", ".", "DOT"), S("nested", "", "IF_THEN"), Rule("empty", "", "finish", ""),
             S("else", "", "INIT")>>,
 RAW |-> <<S("kw", "const", "INIT"), S("kw", "mut", "INIT"), S("else", "", "POSTFIX")>>,
 REFERENCE |-> <<S("kw", "mut", "INIT"), S("id", "raw", "RAW"), S("else", "", "INIT")>>,
 RETURN |-> <<S("begin", "", "INIT"), S("else", "", "POSTFIX")>>
]

\* Number of tokens rule r consumes at i, or -1 (as 99) if it does not match; "&&" and "||" split for & and |.
No == 99
Match(q, i, r, depth) ==
    CASE r.in = "kw" -> IF IsKw(q, i, r.arg) THEN 1 ELSE No
      [] r.in = "p" -> IF IsP(q, i, r.arg) THEN 1
                       ELSE IF r.arg \in {"|", "&"} /\ IsP(q, i, r.arg \o r.arg) THEN 50       \* half a token
                       ELSE No
      [] r.in = "delim" -> IF Cls(q, i) \in Group THEN 1 ELSE No
      [] r.in = "brace" -> IF Cls(q, i) = "brace" THEN 1 ELSE No
      [] r.in = "nested" -> IF depth > 0 /\ Cls(q, i) = "brace" THEN 1 ELSE No
      [] r.in = "any" -> IF i <= Len(q) THEN 1 ELSE No
      [] r.in = "binop" -> IF Cls(q, i) = "p" /\ TokAt(q, i)[2] \in BinOps THEN 1 ELSE No
      [] r.in = "id" -> IF r.arg = "" THEN (IF Cls(q, i) \in {"id", "path"} THEN 1 ELSE No)
                        ELSE IF TokAt(q, i) = <<"path", r.arg>> THEN 1 ELSE No
      [] r.in = "lt" -> IF Cls(q, i) = "lt" THEN 1 ELSE No
      [] r.in = "lit" -> IF Cls(q, i) = "lit" THEN 1 ELSE No
      [] r.in = "path" -> IF Cls(q, i) = "path" THEN 1 ELSE No
      [] r.in = "turbofish" -> IF Cls(q, i) = "tf" THEN 1 ELSE 0
      [] r.in = "type" -> IF Cls(q, i) = "type" THEN 1 ELSE No
      [] r.in = "begin" -> IF CanBegin(q, i) THEN 0 ELSE No
      [] r.in = "else" -> 0
      [] r.in = "empty" -> IF AtEnd(q, i) THEN 0 ELSE No

\* The position after the scanned expression, or 0 if the scan gives up.
RECURSIVE Run(_, _, _, _, _)
Run(q, i, state, depth, fuel) ==
    LET rules == Table[state]
        hits == {k \in 1..Len(rules) : Match(q, i, rules[k], depth) # No}
    IN IF hits = {} \/ fuel = 0 THEN 0
       ELSE LET k == CHOOSE x \in hits : \A y \in hits : x <= y
                r == rules[k]
                n == Match(q, i, r, depth)
                q2 == IF n = 50 THEN [q EXCEPT ![i] = <<"p", r.arg>>] ELSE q
                i2 == IF n = 50 THEN i ELSE i + n
            IN CASE r.act = "finish" -> IF depth = 0 THEN i ELSE 0
                 [] r.act = "inc" -> Run(q2, i2, "INIT", depth + 1, fuel - 1)
                 [] r.act = "dec" -> IF depth = 0 THEN 0 ELSE Run(q2, i2, "POSTFIX", depth - 1, fuel - 1)
                 [] OTHER -> Run(q2, i2, r.to, depth, fuel - 1)

ScanEnd(q, i) == Run(q, i, "INIT", 0, 400)

\* The scan of a whole argument list: the arguments' boundaries, or the token-pattern fallback.
RECURSIVE ScanArgs(_, _)
\* q starts with a comma before each argument; result [ok, args], an argument is [n, a, b] (name or "", first and last token).
ScanArgs(q, i) ==
    IF i > Len(q) THEN [ok |-> TRUE, args |-> <<>>]
    ELSE IF ~IsP(q, i, ",") THEN [ok |-> FALSE, args |-> <<>>]
    ELSE IF i = Len(q) THEN [ok |-> TRUE, args |-> <<>>]
    ELSE LET named == Cls(q, i + 1) \in {"id", "path", "kw"} /\ IsP(q, i + 2, "=")
             start == IF named THEN i + 3 ELSE i + 1
             e == ScanEnd(q, start)
         IN IF e = 0 THEN [ok |-> FALSE, args |-> <<>>]
            ELSE LET r == ScanArgs(q, e) IN
                 [ok |-> r.ok, args |-> <<[n |-> IF named THEN q[i + 1][2] ELSE "", a |-> start, b |-> e - 1]>> \o r.args]
=============================================================================
