---------------------------------- MODULE Soup ----------------------------------
(* Arbitrary token sequences inside the attributes of a declaration.                                                     *)
(* The derive must answer each with an expansion or one diagnostic; where the attribute's own grammar decides, it says   *)
(* which.                                                                                                               *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS MaxTokens, MaxDepth, Focus

VARIABLES place, attr, delim, pre, toks, stack, done
vars == <<place, attr, delim, pre, toks, stack, done>>

Places == {"named", "tuple", "unit", "enum", "variant", "tuplevariant", "field", "tuplefield"}
Attrs == {"error", "source", "from", "backtrace"}
Delims == {"paren", "bracket", "brace", "value", "bare"}
Strings == {"\"m\"", "\"{0}\"", "\"{a}\"", "\"{a:?}{}\"", "\"{\"", "\"}\"", "\"{a\"", "\"{a:\"", "\"{self}\"", "\"{r#a}\"", "\"{_}\"", "\"{0:1$.*}\"", "\"{99999999999}\"", "r#\"{a}\"#"}
Tokens == {",", ";", ":", "::", ".", "..", "..=", "...", "=", "==", "=>", "->", "<", ">", "<=", ">=", "<<", ">>", "<<=", ">>=", "|", "||", "|=", "&", "&&", "+", "-", "*", "/", "%", "^", "!", "!=", "?", "@", "#", "$", "~", "_",
           "a", "x", "r#a", "r#fn", "transparent", "fmt", "self", "Self", "crate", "super", "if", "else", "match", "loop", "while", "for", "in", "unsafe", "async", "move", "return", "break", "continue", "let",
           "as", "mut", "const", "static", "dyn", "impl", "fn", "where", "await", "yield", "become", "box", "ref", "true", "raw", "union",
           "1", "1.0", "1.", "0.0", "1u8", "0x1F", "99999999999999999999", "1e5", "1_0.0_1", "'a", "'c'", "b'c'", "b\"m\"", "c\"m\"", "\"s\"", "'static"}
\* What a macro fragment looks like: a group without delimiters.
Fragments == {"__NONE__(a)", "__NONE__(\"m\")", "__NONE__(1 + .x)", "__NONE__()", "__NONE__(, a = 1)", "__NONE__(__NONE__(transparent))", "__NONE__(= a::b)"}
Core == {",", ".", "..", "=", "::", "<", ">", "|", "->", "=>", "a", "transparent", "fmt", "if", "for", "match", "as", "unsafe", "let", "1", "1.0", "'a", "\"s\"", "!", "&", "-", "?", "#", "_", "return", "const"}
Alphabet == IF Focus THEN Core \cup {"__NONE__(a)", "__NONE__(1 + .x)"} ELSE Tokens \cup Fragments
Openers == {"(", "[", "{"}
Close(o) == CASE o = "(" -> ")" [] o = "[" -> "]" [] o = "{" -> "}"

Init == /\ place \in Places /\ attr \in Attrs /\ delim \in Delims
        /\ pre \in Strings \cup {"", "transparent", "fmt", "fmt ="}
        /\ attr # "error" => pre \in {"", "\"m\""}
        /\ Focus => (attr = "error" /\ delim = "paren" /\ pre \notin {"", "transparent"} /\ place \in {"named", "tuple", "variant"})
        /\ delim = "bare" => pre = ""
        /\ toks = <<>> /\ stack = <<>> /\ done = FALSE
Put == /\ ~done /\ delim # "bare" /\ Len(toks) < MaxTokens /\ \E t \in Alphabet : toks' = Append(toks, t)
       /\ UNCHANGED <<place, attr, delim, pre, stack, done>>
Open == /\ ~done /\ delim # "bare" /\ Len(toks) < MaxTokens /\ Len(stack) < MaxDepth /\ \E o \in Openers : toks' = Append(toks, o) /\ stack' = Append(stack, o)
        /\ UNCHANGED <<place, attr, delim, pre, done>>
Shut == /\ ~done /\ stack # <<>> /\ toks' = Append(toks, Close(stack[Len(stack)])) /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
        /\ UNCHANGED <<place, attr, delim, pre, done>>

\* ---- what the grammar of the attribute decides -------------------------------------------------------------------------
OnField == place \in {"field", "tuplefield"}
Listed == delim \in {"paren", "bracket", "brace"}
\* Index-like tokens after a leading dot may be refused on their own.
Tricky == \E i \in 1..Len(toks) : toks[i] \in {"1u8", "0x1F", "99999999999999999999", "1e5", "1_0.0_1"} \cup Fragments
IsStr(s) == s \in Strings
Tuple == place \in {"tuple", "tuplevariant"}
Verdict ==
    IF toks # <<>> /\ toks[1] \in Fragments THEN "any"
    ELSE IF attr = "from" THEN IF delim = "bare" THEN (IF OnField THEN "any" ELSE "reject") ELSE "any"
    ELSE IF attr \in {"source", "backtrace"} THEN IF delim = "bare" /\ OnField THEN "any" ELSE "reject"
    ELSE IF OnField THEN "reject"
    ELSE IF ~Listed THEN "reject"
    ELSE IF pre = "" /\ toks = <<>> THEN "reject"
    ELSE IF pre = "" /\ toks[1] \notin {"transparent", "fmt", "\"s\""} THEN "reject"
    ELSE IF pre = "transparent" /\ toks # <<>> THEN "reject"
    ELSE IF pre = "fmt" /\ (toks = <<>> \/ toks[1] # "=") THEN "reject"
    ELSE IF pre = "fmt =" /\ toks = <<>> THEN "reject"
    ELSE IF IsStr(pre) /\ ~Tuple /\ ~Tricky THEN "accept"
    ELSE "any"
Derive == /\ ~done /\ stack = <<>> /\ done' = TRUE /\ UNCHANGED <<place, attr, delim, pre, toks, stack>>
          /\ (delim = "value" => pre # "" \/ toks # <<>>)
          /\ PrintT("CASE " \o ToJson([place |-> place, attr |-> attr, delim |-> delim, pre |-> pre, toks |-> toks, verdict |-> Verdict]))
Next == Put \/ Open \/ Shut \/ Derive

Balanced == done => stack = <<>>
=============================================================================
