-------------------------------- MODULE Compute --------------------------------
(* Computations on the variables of a dataset: element-wise expressions, and    *)
(* reductions to a single value.  A cell is an integer or missing.              *)
EXTENDS Integers, Sequences, FiniteSets
Miss == -999999999
(* The cells of a variable: those equal to its fill value are missing.  fill is *)
(* the empty tuple for a variable without fill value.                           *)
Cells(raw, fill) == [ k \in 1..Len(raw) |-> IF fill # <<>> /\ raw[k] = fill[1] THEN Miss ELSE raw[k] ]
Abs(x) == IF x < 0 THEN -x ELSE x
Bool(b) == IF b THEN 1 ELSE 0
(* The functions known to the expressions, in ten-thousandths: at 1/4, 1/2 and *)
(* 3/4 for those of Quarter, else at 1, 2 and 3.                                *)
Table == [
    sin |-> <<2474, 4794, 6816>>,
    cos |-> <<9689, 8776, 7317>>,
    tan |-> <<2553, 5463, 9316>>,
    exp |-> <<12840, 16487, 21170>>,
    arcsin |-> <<2527, 5236, 8481>>,
    arccos |-> <<13181, 10472, 7227>>,
    arctan |-> <<2450, 4636, 6435>>,
    sinh |-> <<2526, 5211, 8223>>,
    cosh |-> <<10314, 11276, 12947>>,
    tanh |-> <<2449, 4621, 6351>>,
    arcsinh |-> <<2475, 4812, 6931>>,
    arctanh |-> <<2554, 5493, 9730>>,
    log |-> <<0, 6931, 10986>>,
    log10 |-> <<0, 3010, 4771>>,
    log2 |-> <<0, 10000, 15850>>,
    sqrt |-> <<10000, 14142, 17321>>,
    arccosh |-> <<0, 13170, 17627>> ]
Quarter == {"sin", "cos", "tan", "exp", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "arcsinh", "arctanh"}
Angle == [ x \in 1..2 |-> [ y \in 1..2 |-> IF x = y THEN 7854 ELSE IF x = 1 THEN 4636 ELSE 11071 ] ]
Obtuse(a) == CASE a = 7854 -> 23562 [] a = 4636 -> 26779 [] a = 11071 -> 20344
(* the angle of the point (y, x), both of them 1, 2, -1 or -2                   *)
Arctan2(x, y) == LET a == Angle[Abs(x)][Abs(y)] IN
  IF x > 0 THEN (IF y > 0 THEN a ELSE Obtuse(a)) ELSE (IF y > 0 THEN -a ELSE -Obtuse(a))
(* a quarter of x, rounded to the nearest integer, halves to the even one       *)
Nearest(x) == LET q == x \div 4  r == x % 4 IN
  IF r < 2 THEN q ELSE IF r > 2 THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)
Apply1(op, x) == IF x = Miss THEN Miss
                 ELSE CASE op = "neg" -> -x [] op = "abs" -> Abs(x) [] op = "square" -> x * x
                        [] op = "ceil" -> -((-x) \div 4) [] op = "floor" -> x \div 4
                        [] op = "round" -> Nearest(x)
                        [] op = "astype" -> IF x < 0 THEN -((-x) \div 4) ELSE x \div 4
                        [] op = "isfinite" -> 1 [] op \in {"isinf", "isnan"} -> 0
                        [] OTHER -> Table[op][x]
Apply2(op, x, y) == IF x = Miss \/ y = Miss THEN Miss
  ELSE CASE op = "add" -> x + y [] op = "sub" -> x - y [] op = "mul" -> x * y
         [] op = "mod" -> x % y [] op = "div" -> x \div y
         [] op = "lt" -> Bool(x < y) [] op = "le" -> Bool(x <= y) [] op = "eq" -> Bool(x = y)
         [] op = "ne" -> Bool(x # y)
         [] op = "remainder" -> IF y > 0 THEN x % y ELSE -((-x) % (-y))
         [] op = "fmod" -> IF x < 0 THEN -((-x) % Abs(y)) ELSE x % Abs(y)
         [] op = "power" -> Power(x, y) [] op = "arctan2" -> Arctan2(x, y)
         [] op = "maximum" -> IF x < y THEN y ELSE x
         [] op = "minimum" -> IF y < x THEN y ELSE x
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))
RECURSIVE ProdOf(_)
ProdOf(s) == IF s = <<>> THEN 1 ELSE s[1] * ProdOf(Tail(s))
Squares(s) == [ k \in 1..Len(s) |-> s[k] * s[k] ]
(* 27720 times the mean is an integer up to 12 values; the variance is observed *)
(* in thousandths, after adding 3/10 (which no fraction with such a denominator *)
(* completes to an integer) and rounding down                                   *)
MeanOf(s) == (27720 * SumOf(s)) \div Len(s)
VarOf(s) == LET n == Len(s)  k == n * SumOf(Squares(s)) - SumOf(s) * SumOf(s) IN
            (10000 * k + 3 * n * n) \div (10 * n * n)
Known(s) == SelectSeq(s, LAMBDA x : x # Miss)
(* The reduction of the values that are not missing; missing if there is none.  *)
Reduce(op, s) == LET v == Known(s) IN
  IF v = <<>> THEN Miss
  ELSE CASE op = "sum" -> SumOf(v) [] op = "prod" -> ProdOf(v) [] op = "mean" -> MeanOf(v)
         [] op \in {"variance", "std"} -> VarOf(v)
         [] op = "min" -> CHOOSE x \in { v[k] : k \in 1..Len(v) } : \A k \in 1..Len(v) : x <= v[k]
         [] op = "max" -> CHOOSE x \in { v[k] : k \in 1..Len(v) } : \A k \in 1..Len(v) : x >= v[k]
Unary == {"neg", "abs", "square", "ceil", "floor", "round", "isfinite", "isinf", "isnan",
          "astype"} \cup DOMAIN Table
Reductions == {"sum", "min", "max", "prod", "mean", "variance", "std"}
(* The value of an expression: [ one |-> BOOLEAN, v |-> sequence ]; a single    *)
(* value combines with every element of an array.                               *)
RECURSIVE Eval(_, _)
Eval(t, env) ==
  CASE t[1] = "var" -> [ one |-> FALSE, v |-> env[t[2]] ]
    [] t[1] = "pi" -> [ one |-> TRUE, v |-> <<31416>> ]
    [] t[1] = "e" -> [ one |-> TRUE, v |-> <<27183>> ]
    [] t[1] = "const" -> [ one |-> TRUE, v |-> <<t[2]>> ]
    [] t[1] \in Unary -> LET x == Eval(t[2], env) IN
         [ x EXCEPT !.v = [ k \in 1..Len(x.v) |-> Apply1(t[1], x.v[k]) ] ]
    [] t[1] \in Reductions -> [ one |-> TRUE, v |-> <<Reduce(t[1], Eval(t[2], env).v)>> ]
    [] OTHER -> LET x == Eval(t[2], env)  y == Eval(t[3], env)
                    n == IF x.one THEN Len(y.v) ELSE Len(x.v) IN
         [ one |-> x.one /\ y.one,
           v |-> [ k \in 1..n |-> Apply2(t[1], x.v[IF x.one THEN 1 ELSE k], y.v[IF y.one THEN 1 ELSE k]) ] ]
================================================================================
