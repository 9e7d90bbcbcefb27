--------------------------------- MODULE Expr ---------------------------------
(* Argument expressions, written from the inside out: a leaf, then one construct around it at a time.    *)
(* An expression is [tk: tokens, v: value, ty, p: precedence, bl: begins with a block, sl: exposes a     *)
(* struct literal, ec: ends in a cast, dot: uses a leading-dot field].                                   *)
(*   ty "i" i64   "r" &i64   "b" bool   "d" Debug text   "u" not typed: only the boundary matters        *)
(* Then it is put in argument lists (scenarios) whose meaning follows from the resolution rule.          *)
EXTENDS ScanExpr, FmtGrammar, Integers, Bitwise, Json, TLC, SequencesExt, FiniteSets

CONSTANTS Depth, Typed, Wide     \* Wide: 0 few leaves, 1 several, 2 all

VARIABLES e, n, kind
vars == <<e, n, kind>>

\* ---- the value at hand ----------------------------------------------------------------------------------
FieldOrder == <<"x", "y", "n", "t", "o", "s", "v", "g", "type", "b", "T">>
IndexOf(f) == CHOOSE i \in 1..Len(FieldOrder) : FieldOrder[i] = f
Val == [x |-> 5, y |-> 3, n |-> 40, type |-> 11, T |-> 77]

\* A leading-dot reference to field f.
Ref(f) == <<"path", "." \o (IF kind = "named" THEN (IF f = "type" THEN "r#type" ELSE f) ELSE ToString(IndexOf(f) - 1))>>
P(x) == <<"p", x>>
K(x) == <<"kw", x>>
Id(x) == <<"id", x>>
Pa(x) == <<"path", x>>
L(x) == <<"lit", x>>
Ty(x) == <<"type", x>>
Tf(x) == <<"tf", x>>
Lt(x) == <<"lt", x>>
Par(q) == <<"paren", q>>
Bra(q) == <<"brace", q>>
Brk(q) == <<"brack", q>>

\* What a macro fragment stands for: an invisible group.
Gx(q) == <<"gexpr", q>>
Gl(q) == <<"glit", q>>
Gb(q) == <<"gblk", q>>
Gt(q) == <<"gty", q>>

\* b: begins with a block-like expression, s: exposes a struct literal, c: ends in a cast, o: open to the right (closure, return ..)
Mk(tk, v, ty, p) == [tk |-> tk, v |-> v, ty |-> ty, p |-> p, bl |-> FALSE, sl |-> FALSE, ec |-> FALSE, op |-> FALSE]
Blk(m) == [m EXCEPT !.bl = TRUE]
\* construct m built with e in leftmost / rightmost position
Left(m) == [m EXCEPT !.bl = e.bl, !.sl = @ \/ e.sl]
Right(m) == [m EXCEPT !.ec = e.ec, !.sl = @ \/ e.sl, !.op = e.op]
Both(m) == [Left(m) EXCEPT !.ec = e.ec]

PRIM == 16
UNARY == 14
CAST == 13

Leaves ==
    {Mk(<<Ref("x")>>, 5, "r", PRIM), Mk(<<Ref("t"), P("."), L("0")>>, 6, "i", PRIM), Mk(<<P("*"), Ref("b")>>, 1, "b", UNARY)}
    \cup (IF Wide < 1 THEN {} ELSE {Mk(<<L("7i64")>>, 7, "i", PRIM), Mk(<<Pa("K")>>, 4, "i", PRIM), Mk(<<Ref("type")>>, 11, "r", PRIM), Mk(<<Ref("t"), P("."), L("10")>>, 21, "i", PRIM),
                                          Mk(<<Gx(<<Par(<<L("2i64"), P("+"), L("3")>>)>>)>>, 5, "i", PRIM)})
    \cup (IF Wide < 2 THEN {} ELSE
    {Mk(<<Pa("m::K2")>>, 6, "i", PRIM), Mk(<<Pa("pair::<u8, u8>"), Par(<<>>)>>, 12, "i", PRIM),
     Mk(<<Pa("<u8 as Sz<i64, u8>>::N")>>, 13, "i", PRIM), Mk(<<Pa("dynk::<dyn It<A = u8, T = u8>>"), Par(<<>>)>>, 14, "i", PRIM),
     Mk(<<Pa("dynk2::<u8, dyn It<A = u8, T = u8>>"), Par(<<>>)>>, 15, "i", PRIM),
     Mk(<<Pa("Kn::<{ 2 + 1 }, 4>::N")>>, 34, "i", PRIM),
     Mk(<<Gl(<<L("9i64")>>)>>, 9, "i", PRIM), Mk(<<Gx(<<Pa("pair::<u8, u8>"), Par(<<>>)>>)>>, 12, "i", PRIM),
     [Mk(<<Gx(<<Pa("S2"), Bra(<<Id("a"), P(":"), L("6i64"), P(","), Id("c"), P(":"), L("1")>>)>>), P("."), Id("a")>>, 6, "i", PRIM) EXCEPT !.sl = TRUE],
     Mk(<<Gx(<<Par(<<L("1i64"), P(","), L("2i64")>>)>>), P("."), L("1")>>, 2, "i", PRIM),
     Blk(Mk(<<K("if"), P("*"), Ref("b"), Gb(<<Bra(<<L("6i64")>>)>>), K("else"), Bra(<<P("*"), Ref("y")>>)>>, 6, "i", PRIM)),
     [Mk(<<L("3u8"), K("as"), Gt(<<Ty("Al<i64, u8>")>>)>>, 3, "i", CAST) EXCEPT !.ec = TRUE],
     [Mk(<<L("\"a,b = c\""), P("."), Id("len"), Par(<<>>), K("as"), Ty("i64")>>, 7, "i", CAST) EXCEPT !.ec = TRUE],
     [Mk(<<L("','"), K("as"), Ty("i64")>>, 44, "i", CAST) EXCEPT !.ec = TRUE],
     [Mk(<<L("2.5f64"), K("as"), Ty("i64")>>, 2, "i", CAST) EXCEPT !.ec = TRUE],
     [Mk(<<L("1.0e1"), K("as"), Ty("i64")>>, 10, "i", CAST) EXCEPT !.ec = TRUE],
     [Mk(<<L("5."), K("as"), Ty("i64")>>, 5, "i", CAST) EXCEPT !.ec = TRUE],
     [Mk(<<L("3u8"), K("as"), Ty("Al<i64, u8>")>>, 3, "i", CAST) EXCEPT !.ec = TRUE],
     Mk(<<Pa("self"), P("."), IF kind = "named" THEN Id("y") ELSE L("1")>>, 3, "i", PRIM),
     Mk(<<Ref("t"), P("."), L("2"), P("."), L("1")>>, 9, "i", PRIM), Mk(<<Ref("t"), P("."), L("2.0")>>, 8, "i", PRIM),
     Mk(<<Ref("s"), P("."), Id("k")>>, 7, "i", PRIM), Mk(<<Ref("s"), P("."), Id("r#type")>>, 8, "i", PRIM),
     Mk(<<Ref("s"), P("."), Id("get"), Par(<<>>)>>, 17, "i", PRIM),
     Mk(<<Ref("s"), P("."), Id("gen"), Tf("::<u8, u8>"), Par(<<>>)>>, 20, "i", PRIM),
     Mk(<<Ref("v"), Brk(<<L("1")>>)>>, 2, "i", PRIM), Mk(<<Ref("o"), P("."), Id("unwrap"), Par(<<>>)>>, 4, "i", PRIM),
     Mk(<<Par(<<Ref("g")>>), Par(<<L("2")>>)>>, 3, "i", PRIM), Mk(<<Pa("id"), P("!"), Par(<<L("3i64")>>)>>, 3, "i", PRIM),
     [Mk(<<Pa("id"), P("!"), Bra(<<Ref("y")>>)>>, 3, "r", PRIM) EXCEPT !.bl = TRUE],
     Mk(<<Pa("id"), P("!"), Brk(<<Ref("n")>>)>>, 40, "r", PRIM),
     Mk(<<L("true")>>, 1, "b", PRIM), Mk(<<P("*"), Ref("o"), P("=="), Pa("Some"), Par(<<L("4")>>)>>, 1, "b", 6)})

\* A second operand that itself is a leading-dot reference, a literal, or a place behind one.
Minor == {Mk(<<Ref("y")>>, 3, "r", PRIM), Mk(<<L("2i64")>>, 2, "i", PRIM)} \cup (IF Wide = 2 THEN {Mk(<<Ref("t"), P("."), L("1")>>, 2, "i", PRIM)} ELSE {})

IsInt(x) == x.ty \in {"i", "r"}
Arith(op, a, b) ==
    CASE op = "+" -> a + b [] op = "-" -> a - b [] op = "*" -> a * b [] op = "/" -> a \div b [] op = "%" -> a % b
      [] op = "&" -> a & b [] op = "|" -> a | b [] op = "^" -> a ^^ b [] op = "<<" -> a * 2^b [] op = ">>" -> a \div 2^b
Prec(op) == CASE op \in {"*", "/", "%"} -> 12 [] op \in {"+", "-"} -> 11 [] op \in {"<<", ">>"} -> 10 [] op = "&" -> 9 [] op = "^" -> 8 [] op = "|" -> 7
              [] op \in {"==", "!=", "<", ">", "<=", ">="} -> 6 [] op = "&&" -> 5 [] op = "||" -> 4
ArithOps == {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"}
CmpOps == {"==", "!=", "<", ">", "<=", ">="}
Rel(op, a, b) == CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b [] op = ">" -> a > b [] op = "<=" -> a <= b [] op = ">=" -> a >= b
Bit(x) == IF x THEN 1 ELSE 0
Sane(a, b, op) == /\ a \in 0..5000 /\ b \in 0..5000 /\ (op \in {"/", "%"} => b > 0) /\ (op \in {"<<", ">>"} => b < 6)
                  /\ (op = "*" => a < 100 \/ b < 30)

Deref(x) == IF x.ty = "r" THEN [x EXCEPT !.tk = <<P("*")>> \o @, !.ty = "i", !.p = UNARY] ELSE x
Plain(x) == ~x.op

\* A reference to it outlives the enclosing block.
PlaceLike == \A i \in 1..Len(e.tk) : e.tk[i][1] \in {"lit", "path", "id"} \/ e.tk[i] = P(".")
Unary ==
    IF e.p < UNARY THEN {} ELSE
    (IF IsInt(e) /\ e.v \in 0..5000 THEN {Right(Mk(<<P("-")>> \o e.tk, 0 - e.v, "i", UNARY))} ELSE {})
    \cup (IF IsInt(e) THEN {Right(Mk(<<P("!")>> \o e.tk, 0 - e.v - 1, "i", UNARY))} ELSE {})
    \cup (IF e.ty = "b" THEN {Right(Mk(<<P("!")>> \o e.tk, 1 - e.v, "b", UNARY))} ELSE {})
    \cup (IF e.ty = "r" THEN {Right(Mk(<<P("*")>> \o e.tk, e.v, "i", UNARY))} ELSE {})
    \cup (IF e.ty = "i" THEN {Right(Mk(<<P("*"), P("*"), P("&&")>> \o e.tk, e.v, "i", UNARY))} ELSE {})
    \cup (IF e.ty = "i" /\ PlaceLike THEN {Right(Mk(<<P("&")>> \o e.tk, e.v, "r", UNARY))} ELSE {})
    \cup (IF e.ty = "i" /\ Head(e.tk)[1] = "lit" THEN {Right(Mk(<<P("*"), P("&"), K("mut")>> \o e.tk, e.v, "i", UNARY))} ELSE {})
BinLeft ==  \* e op m
    UNION {IF ~(IsInt(e) /\ e.p >= Prec(op) /\ Plain(e) /\ ~(op = "<<" /\ e.ec) /\ Sane(e.v, m.v, op)) THEN {}
           ELSE {Left(Mk(e.tk \o <<P(op)>> \o m.tk, Arith(op, e.v, m.v), "i", Prec(op)))} : op \in ArithOps, m \in Minor}
    \cup UNION {IF ~(IsInt(e) /\ e.p > 6 /\ Plain(e) /\ ~(op \in {"<"} /\ e.ec)) THEN {}
           ELSE {Left(Mk(e.tk \o <<P(op)>> \o (IF e.ty = "i" THEN Deref(m) ELSE IF m.ty = "i" THEN [m EXCEPT !.tk = <<P("&")>> \o @] ELSE m).tk, Bit(Rel(op, e.v, m.v)), "b", 6))}
           : op \in CmpOps, m \in Minor}
    \cup (IF e.ty = "b" /\ Plain(e) /\ e.p >= 5 THEN {Left(Mk(e.tk \o <<P("&&"), P("!"), L("false")>>, e.v, "b", 5)), Left(Mk(e.tk \o <<P("&&"), P("*"), Ref("b")>>, e.v, "b", 5))} ELSE {})
    \cup (IF e.ty = "b" /\ Plain(e) /\ e.p >= 4 THEN {Left(Mk(e.tk \o <<P("||"), P("*"), Ref("y"), P("<"), L("1")>>, e.v, "b", 4))} ELSE {})
BinRight ==  \* m op e
    UNION {IF ~(IsInt(e) /\ e.p > Prec(op) /\ Sane(m.v, e.v, op)) THEN {}
           ELSE {[Right(Mk(m.tk \o <<P(op)>> \o e.tk, Arith(op, m.v, e.v), "i", Prec(op))) EXCEPT !.bl = FALSE]} : op \in ArithOps, m \in Minor}
    \cup UNION {IF ~(IsInt(e) /\ e.p > 6) THEN {}
           ELSE {Right(Mk((IF e.ty = "i" THEN Deref(m) ELSE IF m.ty = "i" THEN [m EXCEPT !.tk = <<P("&")>> \o @] ELSE m).tk \o <<P(op)>> \o e.tk, Bit(Rel(op, m.v, e.v)), "b", 6))}
           : op \in CmpOps, m \in Minor}
    \cup (IF e.ty = "b" /\ e.p > 5 THEN {Right(Mk(<<P("*"), Ref("b"), P("&&")>> \o e.tk, e.v, "b", 5))} ELSE {})
    \cup (IF e.ty = "b" /\ e.p > 4 THEN {Right(Mk(<<P("!"), P("*"), Ref("b"), P("||")>> \o e.tk, e.v, "b", 4))} ELSE {})

AsInt == IF e.ty = "r" THEN (IF e.p >= UNARY THEN Deref(e).tk ELSE <<P("*"), Par(e.tk)>>) ELSE e.tk
Grouped ==
    (IF e.ty \in {"i", "r", "b"} THEN {[Mk(<<Par(e.tk)>>, e.v, e.ty, PRIM) EXCEPT !.op = FALSE]} ELSE {})
    \cup (IF ~IsInt(e) THEN {} ELSE
    {Mk(<<Pa("add"), Par(e.tk \o <<P(",")>> \o <<Ref("y")>>)>>, e.v + 3, "i", PRIM),
     Mk(<<Pa("add2::<i64, i64>"), Par(<<Ref("y"), P(",")>> \o e.tk \o <<P(",")>>)>>, e.v + 3, "i", PRIM),
     Mk(<<Par(<<L("1"), P(",")>> \o e.tk), P("."), L("1")>>, e.v, e.ty, PRIM),
     Mk(<<Brk(e.tk \o <<P(",")>> \o e.tk), Brk(<<L("1")>>)>>, e.v, e.ty, PRIM),
     Mk(<<Brk(e.tk \o <<P(";"), L("2")>>), Brk(<<L("0")>>)>>, e.v, e.ty, PRIM),
     Mk(<<Par(<<L("1"), P("..")>> \o (IF e.p > 3 THEN AsInt ELSE <<Par(AsInt)>>)), P("."), Id("end")>>, e.v, "i", PRIM),
     Mk(<<Par(<<P("..")>> \o (IF e.p > 3 THEN e.tk ELSE <<Par(e.tk)>>)), P("."), Id("end")>>, e.v, e.ty, PRIM),
     Mk(<<Pa("vec"), P("!"), Brk(e.tk), Brk(<<L("0")>>)>>, e.v, e.ty, PRIM),
     Mk(<<Pa("id"), P("!"), Par(e.tk)>>, e.v, e.ty, PRIM),
     Mk(<<Pa("kv"), P("!"), Par(<<Id("q"), P("=>")>> \o e.tk)>>, e.v, e.ty, PRIM),
     [Mk(<<Pa("S2"), Bra(<<Id("a"), P(":")>> \o e.tk \o <<P(","), Id("c"), P(":"), L("1")>>), P("."), Id("a")>>, e.v, e.ty, PRIM) EXCEPT !.sl = TRUE],
     [Mk(<<Pa("S2::<_, u8>"), Bra(<<Id("c"), P(":"), L("1"), P(","), Id("a"), P(":")>> \o e.tk), P("."), Id("a")>>, e.v, e.ty, PRIM) EXCEPT !.sl = TRUE],
     Mk(<<Par(<<P("|"), Id("q"), P(","), Id("z"), P(":"), Pa("u8"), P("|")>> \o <<Id("q"), P("+")>> \o <<L("0")>>), Par(e.tk \o <<P(","), L("1")>>)>>, e.v, "i", PRIM),
     Mk(<<Par(<<P("||")>> \o e.tk), Par(<<>>)>>, e.v, e.ty, PRIM),
     Mk(<<Par(<<K("move"), P("|"), K("_"), P("|"), P("->"), Pa(IF e.ty = "r" THEN "&i64" ELSE "i64"), Bra(<<K("return")>> \o e.tk)>>), Par(<<L("0")>>)>>, e.v, e.ty, PRIM),
     Mk(<<Pa("Some"), Par(e.tk), P("."), Id("unwrap"), Par(<<>>)>>, e.v, e.ty, PRIM),
     Mk(<<Pa("Some"), Par(e.tk), P("."), Id("map_or"), Tf("::<i64, _>"), Par(<<L("1"), P(","), P("|"), Id("q"), P("|"), Id("q"), P("+"), Ref("y")>>)>>, e.v + 3, "i", PRIM)})
Postfix ==
    IF e.p < PRIM \/ ~IsInt(e) \/ e.v \notin 0..2000 THEN {} ELSE
    {Left(Mk(e.tk \o <<P("."), Id("pow"), Par(<<L("1")>>)>>, e.v, "i", PRIM)),
     Left(Mk(e.tk \o <<P("."), Id("plus"), Tf("::<u8, u8>"), Par(<<Ref("y")>>)>>, e.v + 3, "i", PRIM)),
     Left(Mk(e.tk \o <<P("."), Id("tup"), Par(<<>>), P("."), L("1"), P("."), L("0")>>, e.v + 1, "i", PRIM)),
     Left(Mk(e.tk \o <<P("."), Id("tup"), Par(<<>>), P("."), L("1.0")>>, e.v + 1, "i", PRIM))}
Cast ==
    IF e.p < CAST \/ e.ty \notin {"i", "b"} \/ e.v \notin 0..2000 THEN {} ELSE
    {[Left(Mk(e.tk \o <<K("as"), Ty("i64")>>, e.v, "i", CAST)) EXCEPT !.ec = TRUE],
     [Left(Mk(e.tk \o <<K("as"), Ty("Al<i64, u8>")>>, e.v, "i", CAST)) EXCEPT !.ec = TRUE]}

CondOk(x) == ~x.sl /\ Plain(x) /\ x.p >= 4
\* a branch: at the start of a group, so a block there would be a statement
TailOk(x) == ~x.bl
Blocks ==
    (IF e.ty = "b" /\ CondOk(e) THEN
       {Blk(Mk(<<K("if")>> \o e.tk \o <<Bra(<<L("1i64")>>), K("else"), Bra(<<P("*"), Ref("y")>>)>>, IF e.v = 1 THEN 1 ELSE 3, "i", PRIM)),
        Blk(Mk(<<K("if"), P("*"), Ref("b"), P("&&"), L("false"), Bra(<<L("1i64")>>), K("else"), K("if")>> \o e.tk \o <<Bra(<<L("2")>>), K("else"), Bra(<<P("*"), Ref("y")>>)>>, IF e.v = 1 THEN 2 ELSE 3, "i", PRIM)),
        Blk(Mk(<<K("loop"), Bra(<<K("while"), P("!"), Par(e.tk), Bra(<<K("break")>>), K("break"), P("*"), Ref("x")>>)>>, 5, "i", PRIM)),
        Blk(Mk(<<K("loop"), Bra(<<K("while")>> \o e.tk \o <<Bra(<<K("break")>>), K("break"), P("*"), Ref("y")>>)>>, 3, "i", PRIM))}
     ELSE {})
    \cup (IF ~IsInt(e) THEN {} ELSE
       (IF CondOk(e) THEN
         {Blk(Mk(<<K("match")>> \o e.tk \o <<Bra(<<Id("q"), P("=>"), Id("q"), P("+"), L("0")>>)>>, e.v, "i", PRIM)),
          Blk(Mk(<<K("match")>> \o e.tk \o <<Bra(<<L("1"), P("|"), L("2"), P("=>"), L("9i64"), P(","), K("_"), K("if"), P("*"), Ref("b"), P("=>"), P("*"), Ref("n"), P(","), K("_"), P("=>"), L("8")>>)>>, IF e.v \in {1, 2} THEN 9 ELSE 40, "i", PRIM)),
          Blk(Mk(<<K("if"), K("let"), Pa("Some"), Par(<<Id("q")>>), P("=")>> \o <<Ref("o"), Bra(<<P("*"), Id("q")>>), K("else"), Bra(<<L("0")>>)>>, 4, "i", PRIM)),
          Blk(Mk(<<K("if"), K("let"), Pa("q"), P("@"), L("1"), P("..="), L("99"), P("=")>> \o AsInt \o <<Bra(<<Id("q"), P("+"), L("0")>>), K("else"), Bra(<<P("*"), Ref("y")>>)>>, IF e.v \in 1..99 THEN e.v ELSE 3, "i", PRIM)),
          Blk(Mk(<<K("if"), K("let"), L("-1"), P("|"), L("5"), P("=")>> \o e.tk \o <<Bra(<<L("1i64")>>), K("else"), K("if"), P("*"), Ref("b"), Bra(<<L("2")>>), K("else"), Bra(<<L("3")>>)>>, IF e.v \in {-1, 5} THEN 1 ELSE 2, "i", PRIM)),
          Blk(Mk(<<K("if"), K("match")>> \o e.tk \o <<Bra(<<L("5"), P("=>"), L("true"), P(","), K("_"), P("=>"), L("false")>>), Bra(<<L("1i64")>>), K("else"), Bra(<<L("2")>>)>>, IF e.v = 5 THEN 1 ELSE 2, "i", PRIM))}
        ELSE {})
       \cup (IF TailOk(e) THEN
         {Blk(Mk(<<Bra(<<K("let"), Id("q"), P(":"), Pa("u8"), P("="), L("1"), P(";"), K("let"), K("_"), P("="), Id("q"), P(";")>> \o e.tk)>>, e.v, e.ty, PRIM)),
          Blk(Mk(<<Bra(<<K("let"), Id("q"), P("=")>> \o e.tk \o <<P(";"), Id("q"), P("+"), Ref("y")>>)>>, e.v + 3, "i", PRIM)),
          Blk(Mk(<<K("unsafe"), Bra(e.tk)>>, e.v, e.ty, PRIM)),
          Blk(Mk(<<K("if"), P("*"), Ref("b"), Bra(e.tk), K("else"), Bra(<<K("return"), K("loop"), Bra(<<>>)>>)>>, e.v, e.ty, PRIM)),
          Blk(Mk(<<K("match"), Ref("o"), Bra(<<Pa("Some"), Par(<<K("_")>>), P("=>")>> \o e.tk \o <<P(","), Pa("None"), P("=>"), K("return"), K("loop"), Bra(<<>>)>>)>>, e.v, e.ty, PRIM)),
          Blk(Mk(<<K("loop"), Bra(<<K("break")>> \o e.tk)>>, e.v, e.ty, PRIM)),
          Blk(Mk(<<Bra(<<K("let"), K("mut"), Id("z"), P("="), L("0i64"), P(";"), K("for"), Id("q"), K("in"), Brk(e.tk), Bra(<<Id("z"), P("+="), Id("q"), P(";")>>), Id("z")>>)>>, e.v, "i", PRIM))}
        ELSE {})
       \cup (IF CondOk(e) /\ e.p > 3 /\ e.v \in 0..2000 THEN
         {Blk(Mk(<<Bra(<<K("let"), K("mut"), Id("z"), P("="), L("0i64"), P(";"), K("for"), Id("q"), K("in"), L("0"), P("..")>> \o (IF e.ty = "r" THEN <<P("*"), Par(e.tk)>> ELSE IF e.bl THEN <<Par(e.tk)>> ELSE e.tk) \o <<Bra(<<Id("z"), P("+="), Id("q"), P("-"), Id("q"), P("+"), L("1"), P(";")>>), Id("z")>>)>>, e.v, "i", PRIM))}
        ELSE {}))
\* ranges print with Debug and are not wrapped further, except as an operand in parentheses
Ranges ==
    IF ~IsInt(e) \/ e.p <= 3 \/ ~Plain(e) THEN {} ELSE
    {Right(Mk(<<P("..")>> \o e.tk, ".." \o ToString(e.v), "d", 3)), Left(Mk(e.tk \o <<P("..")>>, ToString(e.v) \o "..", "d", 3)),
     Right(Mk(<<P("..=")>> \o e.tk, "..=" \o ToString(e.v), "d", 3)),
     Left(Mk(e.tk \o <<P("..")>> \o (IF e.ty = "r" THEN <<Ref("y")>> ELSE <<P("*"), Ref("y")>>), ToString(e.v) \o "..3", "d", 3)),
     Right(Mk((IF e.ty = "r" THEN <<Ref("y")>> ELSE <<L("3")>>) \o <<P("..=")>> \o e.tk, "3..=" \o ToString(e.v), "d", 3))}

\* Constructs whose type cannot be displayed: only where the argument ends matters.
\* After an attribute, a label, `yield` or `&raw const` a leading dot is not supported.
Nd == IF Head(e.tk)[1] = "path" THEN <<Par(e.tk)>> ELSE e.tk
U(tk, p) == Mk(tk, 0, "u", p)
Open(tk) == [Mk(tk, 0, "u", 1) EXCEPT !.op = TRUE]
Untyped ==
    {U(e.tk \o <<P("?")>>, PRIM), U(e.tk \o <<P("."), K("await")>>, PRIM), U(e.tk \o <<P("."), K("await"), P("?"), P("."), Id("h"), Par(<<>>)>>, PRIM)}
    \cup {Open(<<P("|"), Id("q"), P("|")>> \o e.tk), Open(<<P("||")>> \o e.tk), Open(<<K("move"), P("|"), Id("q"), P(","), Id("z"), P("|")>> \o e.tk),
          Open(<<P("|"), Id("q"), P(":"), Pa("u8"), P(","), Par(<<Id("z"), P(","), Id("w")>>), P("|")>> \o e.tk),
          Open(<<K("static"), P("||")>> \o e.tk), Open(<<K("async"), P("||")>> \o e.tk), Open(<<K("async"), K("move"), P("|"), Id("q"), P("|")>> \o e.tk),
          Open(<<K("for"), P("<"), Lt("'q"), P(","), Lt("'z"), P(">"), P("|"), Id("q"), P("|")>> \o e.tk),
          U(<<P("|"), Id("q"), P("|"), P("->"), Ty("Vec<u8, u8>"), Bra(e.tk)>>, PRIM), U(<<K("async"), Bra(e.tk)>>, PRIM), U(<<K("async"), K("move"), Bra(e.tk)>>, PRIM),
          U(<<K("const"), Bra(e.tk)>>, PRIM), U(<<K("const"), P("||")>> \o e.tk, 1),
          U(<<Lt("'l"), P(":"), K("loop"), Bra(e.tk)>>, PRIM), U(<<Lt("'l"), P(":"), Bra(e.tk)>>, PRIM),
          U(<<K("while"), L("true"), Bra(e.tk)>>, PRIM), U(<<K("while"), K("let"), Pa("Some"), Par(<<Id("q")>>), P("=")>> \o e.tk \o <<Bra(<<>>)>>, PRIM),
          U(<<K("for"), K("mut"), Pa("q"), K("in")>> \o e.tk \o <<Bra(<<>>)>>, PRIM),
          U(<<K("for"), P("&"), Par(<<Id("a"), P(","), Id("c")>>), K("in")>> \o e.tk \o <<Bra(<<>>)>>, PRIM),
          Open(<<K("return")>> \o e.tk), Open((IF Head(e.tk)[1] = "lt" THEN <<K("return")>> ELSE <<K("break")>>) \o e.tk), Open(<<K("break"), Lt("'l")>> \o Nd), Open(<<K("yield")>> \o Nd),
          U(<<K("return")>>, 1), U(<<K("continue")>>, PRIM), U(<<K("continue"), Lt("'l")>>, PRIM), U(<<K("break")>>, 1),
          U(<<P("#"), Brk(<<Id("allow"), Par(<<Id("unused")>>)>>)>> \o Nd, e.p),
          U(<<P("&"), Pa("raw"), K("const")>> \o Nd, UNARY), U(<<P("&"), Pa("raw"), K("mut")>> \o e.tk, UNARY),
          U(<<K("if"), K("let"), Pa("m::E::A"), Bra(<<Id("q"), P(","), P("..")>>), P("|"), Pa("m::E::B"), P("=")>> \o e.tk \o <<Bra(<<>>)>>, PRIM),
          U(<<K("if"), K("let"), K("ref"), K("mut"), Pa("q"), P("=")>> \o e.tk \o <<Bra(<<>>), K("else"), Bra(<<>>)>>, PRIM),
          U(<<K("_")>>, PRIM)}
    \cup {U(e.tk \o <<P(op)>> \o <<Pa("q")>>, 2) : op \in {"+=", "<<="} \cup (IF Len(e.tk) > 1 THEN {"="} ELSE {})}

UntypedOk == /\ e.p = PRIM /\ ~e.bl /\ ~e.sl /\ Plain(e)

Wraps == IF Typed THEN (IF e.ty \in {"d", "u"} THEN {} ELSE Unary \cup BinLeft \cup BinRight \cup Grouped \cup Postfix \cup Cast \cup Blocks \cup Ranges)
         ELSE IF UntypedOk \/ n = 0 THEN Untyped \cup {Mk(<<Par(e.tk)>>, 0, "u", PRIM), Mk(<<Pa("K"), P("+")>> \o e.tk, 0, "u", 11)} ELSE {}

Init == /\ kind \in {"named", "tuple"} /\ e \in Leaves /\ n = 0
Next == /\ n < Depth
        /\ \E w \in Wraps : e' = w
        /\ n' = n + 1 /\ UNCHANGED kind

\* ---- use in a message ---------------------------------------------------------------------------------------
\* A scenario: placeholders and arguments; "E" is the expression, other arguments have the value of their text.
\* ev: every argument is evaluated once, in the order written, however often placeholders show it.
Sc(ph, args) == [ph |-> ph, args |-> args, ev |-> LET o == SelectSeq(args, LAMBDA a : a.v # "E") IN [i \in 1..Len(o) |-> o[i].v]]
A(name, val) == [n |-> name, v |-> val]
Scenarios ==
   [named |-> << Sc(<<"n", "">>, <<A("", "E"), A("n", "900")>>),
                 Sc(<<"n", "m">>, <<A("m", "E")>>),
                 Sc(<<"0", "1", "n">>, <<A("", "E"), A("", "8")>>),
                 Sc(<<"m", "0", "T">>, <<A("", "8"), A("m", "E")>>),
                 Sc(<<"", "", "n", "1">>, <<A("", "8"), A("", "E")>>),
                 Sc(<<"n", "m", "y", "T">>, <<A("y", "800"), A("m", "E"), A("n", "900")>>),
                 Sc(<<"n", "T", "A">>, <<A("A", "E"), A("T", "900")>>),
                 Sc(<<"type", "n", "match">>, <<A("type", "E"), A("match", "8")>>) >>,
    tuple |-> << Sc(<<"0", "m", "n">>, <<A("m", "E"), A("n", "900")>>),
                 Sc(<<"", "n">>, <<A("", "E"), A("n", "900")>>),
                 Sc(<<"10", "m">>, <<A("m", "E")>>),
                 Sc(<<"m", "", "n">>, <<A("", "8"), A("m", "E"), A("n", "900")>>),
                 Sc(<<"0", "">>, <<A("", "E")>>),
                 Sc(<<"1", "", "n">>, <<A("", "E"), A("n", "900")>>),
                 Sc(<<"0", "m", "">>, <<A("", "8"), A("m", "E")>>),
                 Sc(<<"m", "n", "2">>, <<A("m", "E"), A("n", "900"), A("", "8")>>),
                 Sc(<<"0", "type", "match">>, <<A("type", "8"), A("match", "E")>>) >> ]

Shown == IF e.ty = "b" THEN (IF e.v = 1 THEN "true" ELSE "false") ELSE IF e.ty = "d" THEN e.v ELSE ToString(e.v)
FieldText(f) == IF f \in DOMAIN Val THEN ToString(Val[f]) ELSE "?"
ArgText(a) == IF a.v = "E" THEN Shown ELSE a.v
ScCtx(s) == LET u == SelectSeq(s.args, LAMBDA a : a.n = "") IN
    [unnamed |-> kind = "tuple", fields |-> IF kind = "tuple" THEN [i \in 1..Len(FieldOrder) |-> ToString(i - 1)] ELSE FieldOrder,
     named |-> [i \in 1..Len(s.args) |-> [n |-> s.args[i].n, v |-> ArgText(s.args[i])]],
     pos |-> [i \in 1..Len(u) |-> ArgText(u[i])], scope |-> {}, paths |-> {}]
Int0(x) == Num(x, 1, Len(x) + 1)
IsNum(x) == x # "" /\ Ch(x, 1) \in Digit
FieldName(x) == FieldOrder[Int0(x) + 1]
Ambiguous(s) == kind = "tuple" /\ (\E i \in 1..Len(s.ph) : IsNum(s.ph[i])) /\ (\E i \in 1..Len(s.args) : s.args[i].n = "")
RECURSIVE Text(_, _, _)
Text(s, i, used) ==
    IF i > Len(s.ph) THEN ""
    ELSE LET c == ScCtx(s) ph == s.ph[i]
             l == IF ph = "" THEN LookupPos([c EXCEPT !.unnamed = FALSE], used) ELSE IF IsNum(ph) THEN LookupPos(c, Int0(ph)) ELSE Lookup(c, ph)
             t == IF l.o = "f" THEN FieldText(IF IsNum(l.v) THEN FieldName(l.v) ELSE l.v) ELSE l.v
         IN (IF i = 1 THEN "" ELSE "|") \o t \o Text(s, i + 1, IF ph = "" THEN used + 1 ELSE used)
Outcome(s) == IF Ambiguous(s) THEN "REJECT" ELSE IF e.ty = "u" THEN "ACCEPT" ELSE Text(s, 1, 0)

\* Evaluated on every distinct expression (as a state constraint): reports what its uses must mean.
Report == PrintT("CASE " \o ToJson([kind |-> kind, tk |-> e.tk, ty |-> e.ty, n |-> n, out |-> [i \in 1..Len(Scenarios[kind]) |-> Outcome(Scenarios[kind][i])]]))
ASSUME PrintT("CASE " \o ToJson([table |-> Scenarios]))

\* ---- the boundary scanner finds exactly the end of every expression, whatever follows ----------------------
\* The scanner sees through invisible groups.
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q)[1] \in {"gexpr", "glit", "gblk", "gty"} THEN Flat(Head(q)[2]) ELSE <<Head(q)>>) \o Flat(Tail(q))
ScannerEndsExact == LET tk == Flat(e.tk) IN
    /\ ScanEnd(tk, 1) = Len(tk) + 1
    /\ ScanEnd(tk \o <<P(",")>>, 1) = Len(tk) + 1
    /\ LET q == <<P(",")>> \o tk \o <<P(","), Id("n"), P("="), L("900")>>
           r == ScanArgs(q, 1) IN r.ok /\ Len(r.args) = 2 /\ r.args[1].n = "" /\ r.args[2].n = "n"
    /\ LET q == <<P(","), Id("m"), P("=")>> \o tk \o <<P(","), L("9"), P(",")>>
           r == ScanArgs(q, 1) IN r.ok /\ Len(r.args) = 2 /\ r.args[1].n = "m" /\ r.args[2].n = ""
=============================================================================
