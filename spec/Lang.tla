-------------------------------- MODULE Lang --------------------------------
(* The meaning of an algebraic program, stated without gates, wires or        *)
(* constraints: a big-step semantics over a syntax tree.  It is the oracle    *)
(* for the compiler and the witness solver.                                   *)
(*                                                                            *)
(* Control flow depends on constants only, so one evaluation serves all input *)
(* vectors of a program at once: a value that depends on the inputs is the    *)
(* sequence of its values, one per input vector, and `ok` holds the verdict   *)
(* per input vector                                                           *)
(*    "ok"    every assertion holds                                           *)
(*    "no"    an assertion fails or a non-zero number is divided by zero      *)
(*    "undef" zero was divided by zero: the quotient is not determined        *)
(*                                                                            *)
(* Scopes are heap cells, so that closures see later assignments to the       *)
(* variables they capture.                                                    *)
LOCAL INSTANCE BigNum
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Curve

\* ---------------------------------------------------------------- values
Const(n)  == [k |-> "c", v |-> n]                  \* known at compile time
\* depends on the inputs: its value per input vector, and the linear form over
\* inputs and results of products it is (kept only if st.sym)
Lin(s, f) == [k |-> "v", v |-> TLCEval(s), f |-> f]
Fun(ps, body, sc, b) == [k |-> "f", ps |-> ps, body |-> body, sc |-> sc, b |-> b]
Unit      == [k |-> "u"]
IsNum(v)  == v.k \in {"c", "v"}
At(v, i)  == IF v.k = "c" THEN v.v ELSE v.v[i]

\* -------------------------------------------------------------- the state
\* m modulus, n number of input vectors, h heap of scopes, ok verdicts,
\* ill reason why the program has no meaning, fuel, feat features used,
\* sp the values handed to SPLIT
NewState(m, n) == [m |-> m, n |-> n, h |-> <<>>, ok |-> [i \in 1..n |-> "ok"], ill |-> "",
                   fuel |-> 3000, d |-> 0, sp |-> {}, sym |-> FALSE, atoms |-> 0, prods |-> [x \in {} |-> 0], zero |-> FALSE]
Ill(st, why)   == IF st.ill = "" THEN [st EXCEPT !.ill = why] ELSE st
Empty          == [x \in {} |-> Unit]
NewScope(st, p, m) == [st EXCEPT !.h = Append(@, [p |-> p, m |-> m])]
Top(st)        == Len(st.h)

RECURSIVE Find(_, _, _)
Find(h, sc, name) == IF sc = 0 THEN 0
                     ELSE IF name \in DOMAIN h[sc].m THEN sc ELSE Find(h, h[sc].p, name)
Put(st, sc, name, v) == [st EXCEPT !.h[sc].m = TLCEval((name :> v) @@ @)]

\* ------------------------------------------------------------ arithmetic
Arith(op, x, y, m) == CASE op = "+" -> MAdd(x, y, m)
                        [] op = "-" -> MSub(x, y, m)
                        [] op = "*" -> MMul(x, y, m)
                        [] op = "/" -> MMul(x, BInvMod(y, m), m)

\* ---------------------------------------------------------- linear forms
\* A form maps atoms to non-zero coefficients; atom 0 is the constant one.
NoForm == [x \in {} |-> "0"]
FormOf(a) == IF a.k = "v" THEN a.f ELSE IF BIsZero(a.v) THEN NoForm ELSE (0 :> a.v)
Coef(f, x) == IF x \in DOMAIN f THEN f[x] ELSE "0"
Keep(f) == TLCEval([x \in {y \in DOMAIN f : ~BIsZero(f[y])} |-> f[x]])
FAdd(f, g, m) == Keep([x \in DOMAIN f \cup DOMAIN g |-> MAdd(Coef(f, x), Coef(g, x), m)])
FScale(f, c, m) == Keep([x \in DOMAIN f |-> MMul(f[x], c, m)])
\* without the common divisor of its coefficients, which moves to the result
Content(f) == FoldLeft(LAMBDA g, x : BGcd(g, f[x]), "0", SetToSeq(DOMAIN f))
Primitive(f) == LET g == TLCEval(Content(f)) IN TLCEval([x \in DOMAIN f |-> BQuo(f[x], g)])
\* a product or quotient of two forms: the same operation yields the same atom
Op(key, scale, st) ==
    LET id == IF key \in DOMAIN st.prods THEN st.prods[key] ELSE st.atoms + 1
    IN  [st |-> IF key \in DOMAIN st.prods THEN st ELSE [st EXCEPT !.atoms = id, !.prods = (key :> id) @@ @],
         f  |-> (id :> scale)]
FMul(f, g, st) == IF f = NoForm \/ g = NoForm THEN [st |-> st, f |-> NoForm]
                  ELSE LET c == MMul(Content(f), Content(g), st.m) IN Op(<<"*", {Primitive(f), Primitive(g)}>>, c, st)
FDiv(f, g, st) == IF f = NoForm \/ g = NoForm THEN Op(<<"/", f, g>>, "1", st)
                  ELSE LET c == MMul(Content(f), BInvMod(Content(g), st.m), st.m) IN Op(<<"/", Primitive(f), Primitive(g)>>, c, st)
UnitForm(f) == \E x \in DOMAIN f : x # 0 /\ DOMAIN f = {x} /\ f[x] = "1"
Fresh1(st) == [st |-> [st EXCEPT !.atoms = @ + 1], f |-> ((st.atoms + 1) :> "1")]

BinForm1(op, a, b, st) ==
    IF ~st.sym THEN [st |-> st, f |-> NoForm]
    ELSE LET f == FormOf(a)  g == FormOf(b) IN
    CASE op = "+" -> [st |-> st, f |-> FAdd(f, g, st.m)]
      [] op = "-" -> [st |-> st, f |-> FAdd(f, FScale(g, BSub(st.m, "1"), st.m), st.m)]
      [] op = "*" -> IF a.k = "c" THEN [st |-> st, f |-> FScale(g, a.v, st.m)]
                     ELSE IF b.k = "c" THEN [st |-> st, f |-> FScale(f, b.v, st.m)]
                     ELSE FMul(f, g, st)
      [] op = "/" -> IF b.k = "c" THEN [st |-> st, f |-> FScale(f, BInvMod(b.v, st.m), st.m)] ELSE FDiv(f, g, st)

\* a form that cancels out is remembered: the code may keep it as 0 * x
BinForm(op, a, b, st) == LET r == BinForm1(op, a, b, st) IN
    IF st.sym /\ r.f = NoForm THEN [r EXCEPT !.st.zero = TRUE] ELSE r

Bin(op, a, b, st) ==
    IF op = "/" /\ b.k = "c" /\ BIsZero(b.v) THEN [st |-> Ill(st, "division by the constant zero"), v |-> Const("0")]
    ELSE IF a.k = "c" /\ b.k = "c" THEN [st |-> st, v |-> Const(Arith(op, a.v, b.v, st.m))]
    ELSE LET fr == BinForm(op, a, b, st) IN
    IF op = "/" /\ b.k = "v" THEN
         [st |-> [fr.st EXCEPT !.ok = TLCEval([i \in 1..st.n |->
                     IF @[i] # "ok" \/ ~BIsZero(b.v[i]) THEN @[i]
                     ELSE IF BIsZero(At(a, i)) THEN "undef" ELSE "no"])],
          v  |-> Lin([i \in 1..st.n |-> Arith("/", At(a, i), b.v[i], st.m)], fr.f)]
    ELSE [st |-> fr.st, v |-> Lin([i \in 1..st.n |-> Arith(op, At(a, i), At(b, i), st.m)], fr.f)]
\* a value which occupies a wire of its own
Wire(v, st) == LET fr == Fresh1(st) IN [st |-> fr.st, v |-> Lin([i \in 1..st.n |-> At(v, i)], fr.f)]

Assert2(a, b, st) == [st EXCEPT !.ok = TLCEval([i \in 1..st.n |->
    IF @[i] # "ok" THEN @[i] ELSE IF BEq(At(a, i), At(b, i)) THEN "ok" ELSE "no"])]

Compare(op, x, y) == LET c == BCmp(x, y) IN
    CASE op = "==" -> c = 0 [] op = "!=" -> c # 0 [] op = "<" -> c = -1
      [] op = "<=" -> c # 1 [] op = ">" -> c = 1 [] op = ">=" -> c # -1

BaseX(v, st) == IF v.k = "c" THEN Const(BMod(G1BaseX(v.v), st.m))
                ELSE Lin([i \in 1..st.n |-> BMod(G1BaseX(v.v[i]), st.m)], NoForm)

RECURSIVE Eval(_, _, _), EvalList(_, _, _, _, _), Call(_, _, _), Exec(_, _, _), ExecSeq(_, _, _, _),
          Chain(_, _, _, _), Loop(_, _, _), Indices(_, _, _, _, _)

\* ------------------------------------------------------------ expressions
Ev(st, v) == [st |-> st, v |-> v]
\* x - x may be known to be 0
Fixed(st, v) == v.k = "c" \/ (v.k = "v" /\ st.sym /\ DOMAIN v.f \subseteq {0})
Depends(st, v, why) == IF Fixed(st, v) THEN "unspecified" ELSE why
\* the name of an array element: the indices are compile-time constants
Indices(es, i, name, sc, st) ==
    IF i > Len(es) THEN [st |-> st, n |-> name]
    ELSE LET r == Eval(es[i], sc, st) IN
         IF r.st.ill # "" THEN [st |-> r.st, n |-> name]
         ELSE IF r.v.k # "c" THEN [st |-> Ill(r.st, Depends(r.st, r.v, "array index depends on the inputs")), n |-> name]
         \* whether a number which exceeds the field is reduced here is left open
         ELSE IF es[i].k = "num" /\ ~BEq(es[i].v, r.v.v) THEN [st |-> Ill(r.st, "unspecified"), n |-> name]
         ELSE Indices(es, i + 1, name \o "[" \o r.v.v \o "]", sc, r.st)

\* what a name means before its block has declared it is left open
Later == [k |-> "later"]
Lookup(name, sc, st) == LET f == Find(st.h, sc, name) IN
    IF f = 0 THEN Ev(Ill(st, "unknown name " \o name), Unit)
    ELSE IF st.h[f].m[name] = Later THEN Ev(Ill(st, "unspecified"), Unit)
    ELSE Ev(st, st.h[f].m[name])

Number(r) == IF r.st.ill # "" \/ IsNum(r.v) THEN r ELSE Ev(Ill(r.st, "not a number"), Const("0"))

Eval(e, sc, st) ==
    IF st.ill # "" THEN Ev(st, Unit)
    ELSE IF st.fuel = 0 THEN Ev(Ill(st, "fuel"), Unit)
    ELSE
    CASE e.k = "num"  -> Ev(st, Const(BMod(e.v, st.m)))
      [] e.k = "bad"  -> Ev(Ill(st, "no value"), Unit)
      [] e.k = "unclear" -> Ev(Ill(st, "unspecified"), Unit)
      \* a function without arguments as a value: whether it is called is left open
      [] e.k = "var"  -> LET r == Lookup(e.n, sc, st) IN
                         IF r.v.k = "f" /\ r.v.ps = <<>> THEN Ev(Ill(r.st, "unspecified"), Unit) ELSE r
      [] e.k = "idx"  -> LET r == Indices(e.i, 1, e.n, sc, st) IN
                         IF r.st.ill # "" THEN Ev(r.st, Unit) ELSE Lookup(r.n, sc, r.st)
      [] e.k = "bin"  -> LET a == Number(Eval(e.l, sc, st))
                             b == Number(Eval(e.r, sc, a.st)) IN
                         IF b.st.ill # "" THEN Ev(b.st, Unit) ELSE Bin(e.op, a.v, b.v, b.st)
      [] e.k = "call" ->
           LET as == EvalList(e.a, 1, <<>>, sc, st) IN
           IF as.st.ill # "" THEN Ev(as.st, Unit)
           ELSE IF e.n = "addGateConstraint" THEN
                IF Len(as.v) # 2 \/ \E i \in 1..Len(as.v) : ~IsNum(as.v[i])
                THEN Ev(Ill(as.st, "addGateConstraint takes two numbers"), Unit)
                ELSE LET r == Bin("+", as.v[1], as.v[2], as.st) IN
                     Wire(r.v, r.st)
           ELSE IF e.n = "scalarBaseMultiply" THEN
                IF Len(as.v) # 1 \/ ~IsNum(as.v[1])
                THEN Ev(Ill(as.st, "scalarBaseMultiply takes a number"), Unit)
                ELSE Wire(BaseX(as.v[1], as.st), as.st)
           ELSE LET f == Lookup(e.n, sc, as.st) IN
                IF f.st.ill # "" THEN Ev(f.st, Unit)
                \* a variable may be called like a function without arguments
                ELSE IF f.v.k # "f" THEN IF as.v = <<>> THEN f ELSE Ev(Ill(f.st, e.n \o " is not a function"), Unit)
                ELSE Call(f.v, as.v, f.st)

EvalList(es, i, acc, sc, st) ==
    IF i > Len(es) THEN [st |-> st, v |-> acc]
    ELSE LET r == Eval(es[i], sc, st) IN
         IF r.st.ill # "" THEN [st |-> r.st, v |-> acc]
         ELSE IF r.v.k = "u" THEN [st |-> Ill(r.st, "unspecified"), v |-> acc]
         ELSE EvalList(es, i + 1, Append(acc, r.v), sc, r.st)

\* applying a function to too few arguments yields a function of the others
Call(f, args, st) ==
    IF Len(args) > Len(f.ps) THEN Ev(Ill(st, "too many arguments"), Unit)
    ELSE IF st.d >= 30 THEN Ev(Ill(st, "fuel"), Unit)
    ELSE LET b == [x \in {f.ps[i] : i \in 1..Len(args)} |->
                      args[CHOOSE i \in 1..Len(args) : f.ps[i] = x]] @@ f.b
             rest == SubSeq(f.ps, Len(args) + 1, Len(f.ps)) IN
         IF rest # <<>> THEN Ev(st, Fun(rest, f.body, f.sc, b))
         ELSE LET s1 == NewScope([st EXCEPT !.fuel = @ - 1, !.d = @ + 1], f.sc, b)
                  r  == ExecSeq(f.body, 1, Top(s1), s1) IN
              Ev([r.st EXCEPT !.d = st.d], IF r.ret THEN r.v ELSE Unit)

\* ------------------------------------------------------------- statements
Ex(st, ret, v) == [st |-> st, ret |-> ret, v |-> v]
Go(st)         == Ex(st, FALSE, Unit)

\* the functions declared in a block are known in all of it
Names(b) == CASE b.k = "var" -> <<b.n>>
              [] b.k = "arr" -> [i \in 1..Len(b.e) |-> b.n \o "[" \o BOfInt(i - 1) \o "]"]
              [] OTHER -> <<>>
Hoist(body, sc, st) ==
    FoldLeft(LAMBDA s, b : IF b.k \in {"func", "vfun"} THEN Put(s, sc, b.n, Fun(b.p, b.b, sc, Empty))
                           ELSE FoldLeft(LAMBDA t, n : IF n \in DOMAIN t.h[sc].m THEN t ELSE Put(t, sc, n, Later), s, Names(b)), st, body)

Cond(c, sc, st) ==
    IF c.k = "badcond" THEN [st |-> Ill(st, "the condition is no comparison"), v |-> FALSE] ELSE
    LET a == Eval(c.l, sc, st)
        b == Eval(c.r, sc, a.st) IN
    IF b.st.ill # "" THEN [st |-> b.st, v |-> FALSE]
    ELSE IF a.v.k # "c" \/ b.v.k # "c"
         THEN [st |-> Ill(b.st, IF Fixed(b.st, a.v) THEN Depends(b.st, b.v, "condition depends on the inputs") ELSE "condition depends on the inputs"), v |-> FALSE]
    ELSE [st |-> b.st, v |-> Compare(c.op, a.v.v, b.v.v)]

Assign(name, v, sc, st) == LET f == Find(st.h, sc, name) IN
    IF f = 0 THEN Ill(st, "assignment to unknown name " \o name)
    \* neither main nor a function becomes a number, nor does a number become a function
    ELSE IF st.h[f].m[name] = Later \/ name = "main" \/ (st.h[f].m[name].k = "f") # (v.k = "f") THEN Ill(st, "unspecified")
    ELSE Put(st, f, name, v)

\* keeping or passing on the result of a function which returns nothing is left open
Value(r) == IF r.st.ill # "" \/ r.v.k # "u" THEN r ELSE Ev(Ill(r.st, "unspecified"), Const("0"))

Block(body, sc, st) == LET s1 == NewScope([st EXCEPT !.fuel = @ - 1], sc, Empty)
                       IN  ExecSeq(body, 1, Top(s1), s1)

Exec(s, sc, st) ==
    IF st.ill # "" THEN Go(st)
    ELSE IF st.fuel <= 0 THEN Go(Ill(st, "fuel"))
    ELSE
    CASE s.k = "var"  -> LET r == Value(Eval(s.e, sc, st)) IN Go(Put(r.st, sc, s.n, r.v))
      [] s.k = "vfun" -> Go(st)
      [] s.k = "arr"  -> LET r == EvalList(s.e, 1, <<>>, sc, st) IN
                         Go(IF r.st.ill # "" THEN r.st
                            ELSE IF \E q \in 1..Len(r.v) : r.v[q].k = "f" THEN Ill(r.st, "unspecified") ELSE
                            FoldLeftDomain(LAMBDA acc, i : Put(acc, sc, s.n \o "[" \o BOfInt(i - 1) \o "]", r.v[i]),
                                           r.st, r.v))
      [] s.k = "set"  -> LET r == Value(Eval(s.e, sc, st)) IN
                         Go(IF r.st.ill # "" THEN r.st ELSE Assign(s.n, r.v, sc, r.st))
      [] s.k = "aset" -> LET x == Indices(s.i, 1, s.n, sc, st)
                             r == Value(Eval(s.e, sc, x.st)) IN
                         Go(IF r.st.ill # "" THEN r.st ELSE Assign(x.n, r.v, sc, r.st))
      [] s.k = "func" -> Go(st)
      [] s.k = "public" -> Go(st)
      [] s.k = "bad"  -> Go(Ill(st, "no effect"))
      [] s.k = "unclear" -> Go(Ill(st, "unspecified"))
      [] s.k = "ret"  -> IF s.e.k = "none" THEN Ex(st, TRUE, Const("1"))
                         ELSE LET r == Eval(s.e, sc, st) IN Ex(r.st, TRUE, r.v)
      [] s.k = "call" -> Go(Eval(s.e, sc, st).st)
      [] s.k = "eq"   -> LET a == Number(Eval(s.l, sc, st))
                             b == Number(Eval(s.r, sc, a.st)) IN
                         Go(IF b.st.ill # "" THEN b.st ELSE Assert2(a.v, b.v, b.st))
      \* only what has a wire of its own can be split
      [] s.k = "split" -> LET r == Number(Eval(s.e, sc, st)) IN
                          Go(IF r.st.ill # "" THEN r.st
                             ELSE IF r.v.k = "c" THEN Ill(r.st, "a constant is split")
                             ELSE IF r.st.sym /\ ~UnitForm(r.v.f) THEN Ill(r.st, IF r.st.zero THEN "unspecified" ELSE "an expression without a wire is split")
                             ELSE [r.st EXCEPT !.sp = @ \cup {r.v}])
      [] s.k = "if"   -> Chain(s.c, 1, sc, st)
      [] s.k = "for"  -> Loop(s, sc, st)

\* only the first branch whose condition holds is taken
Chain(cs, i, sc, st) ==
    IF i > Len(cs) THEN Go(st)
    ELSE IF cs[i].c.k = "none" THEN Block(cs[i].b, sc, st)
    ELSE LET c == Cond(cs[i].c, sc, st) IN
         IF c.st.ill # "" THEN Go(c.st)
         ELSE IF c.v THEN Block(cs[i].b, sc, c.st)
         ELSE Chain(cs, i + 1, sc, c.st)

Loop(s, sc, st) ==
    IF st.fuel <= 0 THEN Go(Ill(st, "fuel"))
    ELSE LET c == Cond(s.c, sc, st) IN
    IF c.st.ill # "" \/ ~c.v THEN Go(c.st)
    ELSE LET r == Block(s.b, sc, c.st) IN
         IF r.st.ill # "" \/ r.ret THEN r
         ELSE LET x == Exec(s.s, sc, r.st) IN
              IF x.st.ill # "" THEN x ELSE Loop(s, sc, x.st)

ExecSeq(body, i, sc, st) ==
    IF i = 1 THEN LET r == Hoist(body, sc, st) IN
                  IF body = <<>> THEN Go(r) ELSE
                  LET x == Exec(body[1], sc, r) IN
                  IF x.st.ill # "" \/ x.ret THEN x ELSE ExecSeq(body, 2, sc, x.st)
    ELSE IF i > Len(body) THEN Go(st)
    ELSE LET x == Exec(body[i], sc, st) IN
         IF x.st.ill # "" \/ x.ret THEN x ELSE ExecSeq(body, i + 1, sc, x.st)

\* ---------------------------------------------------------------- programs
\* prog = [top |-> statements, of which one is the function "main"]
MainOf(top) == LET I == {i \in 1..Len(top) : top[i].k = "func" /\ top[i].n = "main"} IN
               IF I = {} THEN [k |-> "none"] ELSE top[CHOOSE i \in I : \A j \in I : j <= i]
PublicsOf(body) == LET I == {i \in 1..Len(body) : body[i].k = "public"} IN
               FoldLeft(LAMBDA acc, b : IF b.k = "public" THEN acc \o b.n ELSE acc, <<>>, body)

\* the first n occurrences only
Dups(s) == \E i, j \in 1..Len(s) : i < j /\ s[i] = s[j]

\* ---- what is wrong with a program whether or not it is executed
\* names declared twice in one block, public blocks outside of main's body
Declared(body) == SelectSeq(body, LAMBDA b : b.k \in {"var", "vfun", "func"})
Arrays(body)   == SelectSeq(body, LAMBDA b : b.k = "arr")
NamesOf(bs)    == [i \in 1..Len(bs) |-> bs[i].n]
RECURSIVE BlockBad(_, _, _)
BlockBad(params, body, public) ==
    \/ Dups(params \o NamesOf(Declared(body)))
    \/ Dups(NamesOf(Arrays(body)))
    \/ ~public /\ \E i \in 1..Len(body) : body[i].k = "public"
    \/ \E i \in 1..Len(body) : LET b == body[i] IN
         CASE b.k \in {"func", "vfun"} -> BlockBad(b.p, b.b, FALSE)
           [] b.k = "for" -> BlockBad(<<>>, b.b, FALSE)
           [] b.k = "if"  -> \E j \in 1..Len(b.c) : BlockBad(<<>>, b.c[j].b, FALSE)
           [] OTHER -> FALSE
StaticBad(top) ==
    \/ BlockBad(<<>>, SelectSeq(top, LAMBDA b : ~(b.k = "func" /\ b.n = "main")), FALSE)
    \/ \E i \in 1..Len(top) : top[i].k \in {"func", "vfun", "var"} /\ top[i].n = "main" /\ \E j \in 1..Len(top) : i # j /\ top[j].k \in {"func", "vfun", "var"} /\ top[j].n = "main"
    \/ \E i \in 1..Len(top) : top[i].k = "func" /\ top[i].n = "main" /\ BlockBad(top[i].p, top[i].b, TRUE)

\* ---- what may be refused even if it is never executed
\* names which are not declared before their use, or declared twice in one way or another
\* ns: names in their order of declaration, fs: functions, known in all of their block,
\* as: arrays
Base(name) == LET k == {q \in 1..Len(name) : SubSeq(name, q, q) = "["} IN
              IF k = {} THEN name ELSE SubSeq(name, 1, (CHOOSE q \in k : \A w \in k : q <= w) - 1)
Surround(ns, fs, as) == [ns |-> ns, fs |-> fs, as |-> as]
RECURSIVE ExprKnown(_, _), BlockKnown(_, _, _), StmtKnown(_, _)
ExprKnown(e, c) ==
    CASE e.k = "var" -> e.n \in c.ns
      [] e.k = "idx" -> e.n \in c.as /\ \A q \in 1..Len(e.i) : ExprKnown(e.i[q], c) /\ (e.i[q].k = "num" => BCmp(e.i[q].v, "7") = -1)
      [] e.k = "bin" -> ExprKnown(e.l, c) /\ ExprKnown(e.r, c)
      [] e.k = "call" -> e.n \in c.ns \cup c.fs \cup {"addGateConstraint", "scalarBaseMultiply"} /\ \A q \in 1..Len(e.a) : ExprKnown(e.a[q], c)
      [] e.k \in {"num", "none"} -> TRUE
      [] OTHER -> FALSE
CondKnown(x, c) == x.k = "none" \/ (x.k = "cond" /\ ExprKnown(x.l, c) /\ ExprKnown(x.r, c))
StmtKnown(b, c) ==
    CASE b.k \in {"func", "vfun"} -> BlockKnown(b.p, b.b, c)
      [] b.k \in {"var", "ret"} -> ExprKnown(b.e, c)
      [] b.k = "arr" -> \A q \in 1..Len(b.e) : ExprKnown(b.e[q], c)
      [] b.k = "set" -> b.n \in c.ns /\ ExprKnown(b.e, c)
      [] b.k = "aset" -> b.n \in c.as /\ ExprKnown(b.e, c) /\ \A q \in 1..Len(b.i) : ExprKnown(b.i[q], c) /\ (b.i[q].k = "num" => BCmp(b.i[q].v, "7") = -1)
      [] b.k = "call" -> ExprKnown(b.e, c)
      [] b.k = "eq" -> ExprKnown(b.l, c) /\ ExprKnown(b.r, c)
      [] b.k = "split" -> FALSE
      [] b.k = "for" -> CondKnown(b.c, c) /\ b.s.n \in c.ns /\ ExprKnown(b.s.e, c) /\ BlockKnown(<<>>, b.b, c)
      [] b.k = "if" -> \A q \in 1..Len(b.c) : CondKnown(b.c[q].c, c) /\ BlockKnown(<<>>, b.c[q].b, c)
      [] b.k = "public" -> TRUE
      [] OTHER -> FALSE
BlockKnown(params, body, around) ==
    LET ds == NamesOf(Declared(body)) \o NamesOf(Arrays(body))
        ps == [q \in 1..Len(params) |-> Base(params[q])]
        ar == {ps[q] : q \in {z \in 1..Len(params) : ps[z] # params[z]}}
        fs == {body[q].n : q \in {z \in 1..Len(body) : body[z].k \in {"func", "vfun"}}}
        c0 == Surround((around.ns \ ar) \cup {params[q] : q \in 1..Len(params)}, around.fs \cup fs, around.as \cup ar)
        After(c, b) == CASE b.k \in {"func", "vfun", "var"} -> [c EXCEPT !.ns = @ \cup {b.n}, !.as = @ \ {b.n}]
                         [] b.k = "arr" -> [c EXCEPT !.as = @ \cup {b.n}, !.ns = @ \ {b.n}]
                         [] OTHER -> c
    IN  /\ ~Dups(ds) /\ ~Dups(params) /\ \A q \in 1..Len(ds) : \A j \in 1..Len(ps) : ds[q] # ps[j]
        /\ FoldLeft(LAMBDA x, b : [c |-> After(x.c, b), yes |-> x.yes /\ StmtKnown(b, x.c)], [c |-> c0, yes |-> TRUE], body).yes
AllKnown(top) == BlockKnown(<<>>, top, Surround({}, {}, {}))

\* ins is the sequence of input vectors, each in the order of main's parameters
\* sym: also collect the distinct products and quotients
RunFor(top, ins, m, sym, fuel) ==
    LET n    == Len(ins)
        main == MainOf(top)
        s0   == [NewScope(NewState(m, n), 0, Empty) EXCEPT !.sym = sym, !.fuel = fuel, !.atoms = IF main.k = "none" THEN 0 ELSE Len(main.p)] IN
    IF main.k = "none" THEN Ill(s0, "no main function")
    ELSE IF Dups(main.p) THEN Ill(s0, "two inputs have the same name")
    ELSE IF Dups(PublicsOf(main.b)) THEN Ill(s0, "an input is declared public twice")
    ELSE
    LET s1 == FoldLeft(LAMBDA s, b : IF s.ill # "" THEN s
                          ELSE IF b.k \in {"func", "vfun", "var", "arr"} THEN Exec(b, 1, s).st
                          ELSE IF b.k \in {"set", "aset"} THEN Ill(s, "unspecified")
                          ELSE Ill(s, "statement outside of a function"),
                       Hoist(top, 1, s0), top)
        args == [x \in {main.p[i] : i \in 1..Len(main.p)} |->
                   LET i == CHOOSE j \in 1..Len(main.p) : main.p[j] = x
                   IN  Lin([q \in 1..n |-> BMod(ins[q][i], m)], (i :> "1"))]
        s2 == NewScope(s1, 1, args)
        r  == IF s1.ill # "" THEN Go(s1) ELSE ExecSeq(main.b, 1, Top(s2), s2)
    IN  r.st
RunAs(top, ins, m, sym) == RunFor(top, ins, m, sym, 3000)
Run(top, ins, m) == RunAs(top, ins, m, FALSE)
=============================================================================
