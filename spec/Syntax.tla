------------------------------- MODULE Syntax -------------------------------
(* From text to syntax tree: the lexical structure and the grammar of the       *)
(* language.  Read(text) is one of                                              *)
(*    [r |-> "yes", top |-> ...]   the text is a program, with this syntax tree *)
(*    [r |-> "no", why |-> ...]    it is none and has to be refused             *)
(*    [r |-> "open"]               it uses something which is left open here:   *)
(*       trailing commas, line breaks inside of brackets, blanks between a name *)
(*       and its argument list, quoted names that are not imported, ...          *)
(* An import statement stands for the text of the file it names.                *)
(* The first problem decides.  A construct which can be read but means nothing  *)
(* (such as a comparison as a value) becomes a node "bad", which Lang refuses   *)
(* when it is reached; "unclear" is a node whose meaning is left open.          *)
LOCAL INSTANCE BigNum
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE SequencesExt

Chars(s) == {SubSeq(s, k, k) : k \in 1..Len(s)}
Digits  == TLCEval(Chars("0123456789"))
Letters == TLCEval(Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))
InWord  == TLCEval(Digits \cup Letters \cup {"_"})
Blank   == {" ", "\t", "\r"}
Single  == {"(", ")", ":", ",", ";", "{", "}", "[", "]"}
OpChars == {"=", "-", "+", "*", "/", "&", "|", ">", "<", "!"}
Ops1    == {"=", "-", "+", "*", "/", ">", "<"}
Ops2    == {"-=", "+=", "*=", "/=", "||", "&&", ">>", "<<", "==", "!=", ">=", "<="}
Keywords == {"return", "var", "if", "else", "for", "func", "import", "public"}

\* ------------------------------------------------------------------- lexing
\* A token: t kind, s text, g whether "(" follows at once, q line number.
\* md: what is being read; w: what has been read of it
LexStart == [ts |-> <<>>, md |-> "", w |-> "", err |-> ""]
Tok(t, s) == [t |-> t, s |-> s, g |-> FALSE]
Emit(st, t, s) == [st EXCEPT !.ts = Append(@, Tok(t, s)), !.md = "", !.w = ""]
Flush(st) == CASE st.md = "word" -> Emit(st, IF st.w \in Keywords THEN "kw" ELSE "id", st.w)
               [] st.md = "num"  -> Emit(st, "num", st.w)
               [] st.md = "op"   -> IF st.w \in Ops1 THEN Emit(st, "op", st.w) ELSE [st EXCEPT !.err = "no", !.md = ""]
               [] st.md = "note" -> [st EXCEPT !.md = "", !.w = ""]
               [] st.md = "quote" -> [st EXCEPT !.err = "no", !.md = ""]
               [] OTHER -> st
Begin(st, c) ==
    CASE c \in Blank  -> st
      [] c = "\n"     -> IF st.ts # <<>> /\ st.ts[Len(st.ts)].t = "nl" THEN st ELSE Emit(st, "nl", c)
      [] c \in Digits -> [st EXCEPT !.md = "num", !.w = c]
      [] c \in InWord -> [st EXCEPT !.md = "word", !.w = c]
      [] c \in Single -> Emit(st, "sy", c)
      [] c \in OpChars -> [st EXCEPT !.md = "op", !.w = c]
      [] c = "#"      -> [st EXCEPT !.md = "note"]
      [] c = "\""     -> [st EXCEPT !.md = "quote"]
      [] OTHER        -> [st EXCEPT !.err = "no"]
Glue(st) == [st EXCEPT !.ts[Len(st.ts)].g = TRUE]
Step(st, c) ==
    IF st.err # "" THEN st
    ELSE CASE st.md = "note" -> IF c = "\n" THEN Begin(Flush(st), c) ELSE st
           [] st.md = "quote" -> IF c = "\"" THEN Emit(st, "str", st.w) ELSE IF c = "\n" THEN [st EXCEPT !.err = "open"] ELSE [st EXCEPT !.w = @ \o c]
           [] st.md = "word" /\ c \in InWord -> [st EXCEPT !.w = @ \o c]
           [] st.md = "num" /\ c \in Digits  -> [st EXCEPT !.w = @ \o c]
           [] st.md = "op" /\ st.w \o c \in Ops2 -> Emit(st, "op", st.w \o c)
           [] st.md = "word" /\ c = "(" -> Begin(Glue(Flush(st)), c)
           [] st.md = "" -> Begin(st, c)
           [] OTHER -> LET f == Flush(st) IN IF f.err # "" THEN f ELSE Begin(f, c)
\* chars: the text as a sequence of characters
Lex(chars) == LET st == FoldLeft(Step, LexStart, chars) IN TLCEval(IF st.err # "" THEN st ELSE Flush(st))

\* ------------------------------------------------------------------ parsing
\* T tokens, p position; a parser yields [r, p, a] with a the tree
Yes(p, a) == [r |-> "yes", p |-> p, a |-> a]
No(p)     == [r |-> "no", p |-> p, a |-> 0]
Open(p)   == [r |-> "open", p |-> p, a |-> 0]
Good(x)   == x.r = "yes"
Eof  == Tok("eof", "")
At(T, p) == IF p > Len(T) THEN Eof ELSE T[p]
Is(T, p, s) == At(T, p).s = s /\ At(T, p).t \in {"sy", "op", "kw"}
Nl(T, p)  == At(T, p).t = "nl"
\* an unexpected token; a line break inside of brackets which do close is left open
Depth(T, from, o, c) == FoldLeft(LAMBDA d, k : IF d < 0 THEN d ELSE IF T[k].t = "sy" /\ T[k].s = o THEN d + 1
                                              ELSE IF T[k].t = "sy" /\ T[k].s = c THEN d - 1 ELSE d,
                                 0, [k \in 1..(Len(T) - from + 1) |-> from + k - 1])
Unexpected(T, p, inside) ==
    IF ~Nl(T, p) \/ inside = "" THEN No(p)
    ELSE IF Depth(T, p, inside, IF inside = "(" THEN ")" ELSE IF inside = "[" THEN "]" ELSE "}") < 0 THEN Open(p) ELSE No(p)

Arithmetic == {"+", "-", "*", "/"}
Strength(t) == IF t.t # "op" THEN 0
               ELSE CASE t.s \in {"=", "-=", "+=", "*=", "/="} -> 1
                      [] t.s \in {"||", "&&"} -> 2
                      [] t.s \in {"==", "!=", ">", ">=", "<", "<="} -> 3
                      [] t.s \in {">>", "<<"} -> 4
                      [] t.s \in {"+", "-"} -> 5
                      [] OTHER -> 6
BadExpr == [k |-> "bad"]
Special == {"equal", "SPLIT", "BREAK", "AND", "NAND", "OR", "NOT"}
Builtin == Special \cup {"addGateConstraint", "scalarBaseMultiply"}

RECURSIVE Expr(_, _, _, _), More(_, _, _, _, _), Primary(_, _, _), Items(_, _, _, _, _), IdxList(_, _, _, _),
          Stmts(_, _, _, _), Stmt(_, _), IfRest(_, _, _), Params(_, _, _), Sizes(_, _, _), Publics(_, _, _)

\* operators at least as strong as s; those of equal strength associate to the left
Expr(T, p, s, inside) == LET l == Primary(T, p, inside) IN IF Good(l) THEN More(T, l.p, l.a, s, inside) ELSE l
More(T, p, l, s, inside) ==
    LET q == Strength(At(T, p)) IN
    IF q = 0 \/ q < s THEN Yes(p, l)
    ELSE LET r == Expr(T, p + 1, q + 1, inside) IN
         IF ~Good(r) THEN r
         ELSE More(T, r.p, IF q >= 5 THEN [k |-> "bin", op |-> T[p].s, l |-> l, r |-> r.a]
                           ELSE [k |-> "bad", op |-> T[p].s, l |-> l, r |-> r.a], s, inside)

Primary(T, p, inside) ==
    LET t == At(T, p)  n == At(T, p + 1) IN
    CASE t.t = "num" -> IF n.t \in {"id", "num"} THEN Open(p) ELSE Yes(p + 1, [k |-> "num", v |-> t.s])
      [] t.t = "id" ->
         IF t.g THEN LET as == Items(T, p + 2, <<>>, ")", "(") IN
                     IF ~Good(as) THEN as
                     ELSE Yes(as.p, IF t.s \in Special THEN [k |-> "unclear"] ELSE [k |-> "call", n |-> t.s, a |-> as.a])
         ELSE IF n.t = "sy" /\ n.s = "(" THEN Open(p)
         ELSE IF n.t = "sy" /\ n.s = "[" THEN LET ix == IdxList(T, p + 1, <<>>, inside) IN
                     IF ~Good(ix) THEN ix ELSE Yes(ix.p, [k |-> "idx", n |-> t.s, i |-> ix.a])
         ELSE Yes(p + 1, [k |-> "var", n |-> t.s])
      [] t.t = "sy" /\ t.s = "(" -> LET e == Expr(T, p + 1, 1, "(") IN
                     IF ~Good(e) THEN e ELSE IF Is(T, e.p, ")") THEN Yes(e.p + 1, e.a) ELSE Unexpected(T, e.p, "(")
      [] OTHER -> Unexpected(T, p, inside)

\* [e][e]...
IdxList(T, p, acc, inside) ==
    IF ~Is(T, p, "[") THEN Yes(p, acc)
    ELSE LET e == Expr(T, p + 1, 1, "[") IN
         IF ~Good(e) THEN e
         ELSE IF Is(T, e.p, "]") THEN IdxList(T, e.p + 1, Append(acc, e.a), inside) ELSE Unexpected(T, e.p, "[")

\* e, e, ... up to the closing bracket, which is consumed
Items(T, p, acc, close, inside) ==
    IF acc = <<>> /\ Is(T, p, close) THEN Yes(p + 1, acc)
    ELSE LET e == Expr(T, p, 1, inside) IN
         IF ~Good(e) THEN e
         ELSE IF Is(T, e.p, close) THEN Yes(e.p + 1, Append(acc, e.a))
         ELSE IF ~Is(T, e.p, ",") THEN Unexpected(T, e.p, inside)
         ELSE IF Is(T, e.p + 1, close) THEN Open(e.p)
         ELSE Items(T, e.p + 1, Append(acc, e.a), close, inside)

\* ---- the array parameter x[2][3] stands for x[0][0], x[0][1], ...
RECURSIVE Expand(_, _)
Expand(name, dims) == IF dims = <<>> THEN <<name>>
    ELSE FlattenSeq([k \in 1..Head(dims) |-> Expand(name \o "[" \o BOfInt(k - 1) \o "]", Tail(dims))])
Sizes(T, p, acc) ==
    IF ~Is(T, p, "[") THEN Yes(p, acc)
    ELSE IF At(T, p + 1).t # "num" THEN (IF Is(T, p + 1, "(") THEN Open(p) ELSE Unexpected(T, p + 1, "["))
    ELSE IF ~Is(T, p + 2, "]") THEN Unexpected(T, p + 2, "[")
    ELSE IF BIsZero(T[p + 1].s) THEN No(p)
    ELSE IF BCmp(T[p + 1].s, "30") = 1 THEN Open(p)
    ELSE Sizes(T, p + 3, Append(acc, BToInt(T[p + 1].s)))
\* the parameters, up to the closing bracket
Params(T, p, acc) ==
    IF acc = <<>> /\ Is(T, p, ")") THEN Yes(p + 1, acc)
    ELSE IF At(T, p).t # "id" THEN (IF Is(T, p, "(") THEN Open(p) ELSE Unexpected(T, p, "("))
    ELSE LET d == Sizes(T, p + 1, <<>>) IN
         IF ~Good(d) THEN d
         ELSE LET a == acc \o Expand(T[p].s, d.a) IN
              IF Is(T, d.p, ")") THEN Yes(d.p + 1, a)
              ELSE IF ~Is(T, d.p, ",") THEN Unexpected(T, d.p, "(")
              ELSE IF Is(T, d.p + 1, ")") THEN Open(d.p)
              ELSE Params(T, d.p + 1, a)
\* func name ( ... ) { ... }, from the name's "(" on
Function(T, p) ==
    LET ps == Params(T, p + 1, <<>>) IN
    IF ~Is(T, p, "(") THEN No(p)
    ELSE IF ~Good(ps) THEN ps
    ELSE IF Nl(T, ps.p) /\ Is(T, ps.p + 1, "{") THEN Open(ps.p)
    ELSE IF ~Is(T, ps.p, "{") THEN No(ps.p)
    ELSE LET b == Stmts(T, ps.p + 1, <<>>, FALSE) IN
         IF Good(b) THEN Yes(b.p, [p |-> ps.a, b |-> b.a]) ELSE b

Skip(T, p) == IF Nl(T, p) THEN p + 1 ELSE p
\* the names after public {, up to the closing bracket; line breaks around the names are fine
Publics(T, p, acc) ==
    LET q == Skip(T, p) IN
    IF acc = <<>> /\ Is(T, q, "}") THEN Open(q)
    ELSE IF At(T, q).t # "id" THEN (IF At(T, q).t \in {"num", "sy"} /\ ~Is(T, q, ",") /\ ~Is(T, q, "}") THEN Open(q) ELSE No(q))
    ELSE LET ix == IdxList(T, q + 1, <<>>, "{") IN
         IF ~Good(ix) THEN ix
         ELSE IF \E k \in 1..Len(ix.a) : ix.a[k].k # "num" THEN Open(q)
         ELSE LET n == T[q].s \o FoldLeft(LAMBDA s, e : s \o "[" \o BMod(e.v, "1000000") \o "]", "", ix.a)
                  e == Skip(T, ix.p) IN
              IF Is(T, e, "}") THEN Yes(e + 1, Append(acc, n))
              ELSE IF ~Is(T, e, ",") THEN (IF Is(T, e, "(") \/ At(T, e).t = "op" THEN Open(e) ELSE No(e))
              ELSE IF Is(T, Skip(T, e + 1), "}") THEN Open(e)
              ELSE Publics(T, e + 1, Append(acc, n))

\* a simple statement ends with its line, or with the block
Ends(T, p) == Nl(T, p) \/ Is(T, p, "}")
End(T, x, node) == IF ~Good(x) THEN x
                   ELSE IF Ends(T, x.p) THEN Yes(x.p, node)
                   ELSE IF At(T, x.p).t = "eof" THEN Open(x.p) ELSE No(x.p)
\* ---- conditions: one comparison of two expressions
IsCond(e) == e.k = "bad" /\ "op" \in DOMAIN e /\ e.op \in {"==", "!=", ">", ">=", "<", "<="}
Condition(e) == IF IsCond(e) THEN [k |-> "cond", op |-> e.op, l |-> e.l, r |-> e.r] ELSE [k |-> "badcond"]
Body(T, p) == IF Is(T, p, "{") THEN Stmts(T, p + 1, <<>>, FALSE)
              ELSE IF Nl(T, p) THEN Open(p) ELSE No(p)
IfRest(T, p, cs) ==   \* p is behind the closing bracket of a branch
    IF ~Is(T, p, "else") THEN
        IF Nl(T, p) /\ Is(T, p + 1, "else") THEN Open(p)
        ELSE IF Len(cs) > 1 THEN No(p) ELSE Yes(p, [k |-> "if", c |-> cs])
    ELSE IF Is(T, p + 1, "if") THEN
        LET c == Expr(T, p + 2, 1, "")  b == Body(T, c.p) IN
        IF ~Good(c) THEN c ELSE IF ~Good(b) THEN b
        ELSE IfRest(T, b.p, Append(cs, [c |-> Condition(c.a), b |-> b.a]))
    ELSE LET b == Body(T, p + 1) IN
         IF ~Good(b) THEN b
         ELSE IF Is(T, b.p, "else") THEN No(b.p)
         ELSE Yes(b.p, [k |-> "if", c |-> Append(cs, [c |-> [k |-> "none"], b |-> b.a])])

Effect(n, as) == CASE n = "equal" -> IF Len(as) = 2 THEN [k |-> "eq", l |-> as[1], r |-> as[2]] ELSE [k |-> "bad"]
                   [] n = "SPLIT" -> IF Len(as) = 1 THEN [k |-> "split", e |-> as[1]] ELSE [k |-> "bad"]
                   [] n \in Special -> [k |-> "unclear"]
                   [] OTHER -> [k |-> "call", e |-> [k |-> "call", n |-> n, a |-> as]]
Stmt(T, p) ==
    LET t == At(T, p)  n == At(T, p + 1) IN
    CASE Is(T, p, "public") -> IF ~Is(T, p + 1, "{") THEN (IF Nl(T, p + 1) THEN Open(p) ELSE No(p)) ELSE
             LET x == Publics(T, p + 2, <<>>) IN IF Good(x) THEN Yes(x.p, [k |-> "public", n |-> x.a]) ELSE x
      [] Is(T, p, "import") -> Open(p)
      [] Is(T, p, "func") -> IF n.t # "id" THEN No(p) ELSE
             LET f == Function(T, p + 2) IN
             IF ~Good(f) THEN f ELSE IF n.s \in Builtin THEN Open(p) ELSE Yes(f.p, [k |-> "func", n |-> n.s, p |-> f.a.p, b |-> f.a.b])
      [] Is(T, p, "var") -> IF n.t # "id" THEN No(p)
             ELSE IF Is(T, p + 2, "=") THEN
                 IF Is(T, p + 3, "func") THEN
                     LET f == Function(T, p + 4) IN
                     IF ~Good(f) THEN f ELSE IF n.s \in Builtin THEN Open(p) ELSE Yes(f.p, [k |-> "vfun", n |-> n.s, p |-> f.a.p, b |-> f.a.b])
                 ELSE LET e == Expr(T, p + 3, 1, "") IN End(T, e, [k |-> "var", n |-> n.s, e |-> e.a])
             ELSE IF Is(T, p + 2, "[") /\ Is(T, p + 3, "]") /\ Is(T, p + 4, "=") /\ Is(T, p + 5, "{") THEN
                 IF Is(T, p + 6, "}") THEN Open(p)
                 ELSE LET l == Items(T, p + 6, <<>>, "}", "{") IN End(T, l, [k |-> "arr", n |-> n.s, e |-> l.a])
             ELSE No(p)
      [] Is(T, p, "return") -> IF Ends(T, p + 1) THEN Yes(p + 1, [k |-> "ret", e |-> [k |-> "none"]])
             ELSE LET e == Expr(T, p + 1, 1, "") IN End(T, e, [k |-> "ret", e |-> e.a])
      [] Is(T, p, "if") -> LET c == Expr(T, p + 1, 1, "")  b == Body(T, c.p) IN
             IF ~Good(c) THEN c ELSE IF ~Good(b) THEN b
             ELSE IfRest(T, b.p, <<[c |-> Condition(c.a), b |-> b.a]>>)
      [] Is(T, p, "for") -> IF ~Is(T, p + 1, "(") THEN No(p) ELSE
             LET c == Expr(T, p + 2, 1, "(") IN
             IF ~Good(c) THEN c
             ELSE IF ~Is(T, c.p, ";") THEN Unexpected(T, c.p, "(")
             ELSE IF At(T, c.p + 1).t # "id" THEN Unexpected(T, c.p + 1, "(")
             ELSE IF Is(T, c.p + 2, "[") THEN Open(c.p)
             ELSE IF ~Is(T, c.p + 2, "=") THEN Unexpected(T, c.p + 2, "(")
             ELSE LET e == Expr(T, c.p + 3, 1, "(") IN
                  IF ~Good(e) THEN e
                  ELSE IF ~Is(T, e.p, ")") THEN Unexpected(T, e.p, "(")
                  ELSE LET b == Body(T, Skip(T, e.p + 1)) IN
                       IF ~Good(b) THEN b
                       ELSE Yes(b.p, [k |-> "for", c |-> Condition(c.a), s |-> [k |-> "set", n |-> T[c.p + 1].s, e |-> e.a], b |-> b.a])
      [] t.t = "id" /\ t.g -> LET as == Items(T, p + 2, <<>>, ")", "(") IN End(T, as, IF Good(as) THEN Effect(t.s, as.a) ELSE 0)
      [] t.t = "id" /\ ~t.g ->
             IF Is(T, p + 1, "(") THEN Open(p)
             ELSE LET l == Expr(T, p, 2, "") IN
                  IF ~Good(l) THEN l
                  ELSE IF ~Is(T, l.p, "=") THEN No(l.p)
                  ELSE LET e == Expr(T, l.p + 1, 1, "") IN
                       End(T, e, CASE l.a.k = "var" -> [k |-> "set", n |-> l.a.n, e |-> e.a]
                                   [] l.a.k = "idx" -> [k |-> "aset", n |-> l.a.n, i |-> l.a.i, e |-> e.a]
                                   [] OTHER -> [k |-> "bad"])
      [] OTHER -> No(p)

\* statements up to the closing bracket of the block, or to the end of the text
Stmts(T, p, acc, top) ==
    LET q == Skip(T, p) IN
    IF At(T, q).t = "eof" THEN IF top THEN Yes(q, acc) ELSE No(q)
    ELSE IF Is(T, q, "}") THEN IF top THEN No(q) ELSE Yes(q + 1, acc)
    ELSE IF acc # <<>> /\ acc[Len(acc)].k = "ret" THEN Open(q)
    ELSE LET s == Stmt(T, q) IN IF Good(s) THEN Stmts(T, s.p, Append(acc, s.a), top) ELSE s

\* ---------------------------------------------------------------- imports
\* Where a statement begins, import "name" is replaced by the tokens of that file, in which
\* imports are replaced likewise.  A file that does not exist, is no sequence of tokens or
\* takes part in its own import has to be refused.  Left open are imports in other places,
\* files whose brackets do not match, and what follows an import on its line.
\* files: a sequence of [n |-> name, t |-> text as a sequence of characters]
Brackets == {<<"(", ")">>, <<"[", "]">>, <<"{", "}">>}
Balanced(ts) == \A b \in Brackets :
    0 = FoldLeft(LAMBDA d, t : IF d < 0 \/ t.t # "sy" THEN d ELSE IF t.s = b[1] THEN d + 1 ELSE IF t.s = b[2] THEN d - 1 ELSE d, 0, ts)
RECURSIVE Splice(_, _, _, _, _)
Splice(ts, k, acc, chain, files) ==
    IF k > Len(ts) THEN [r |-> "yes", ts |-> acc]
    ELSE IF ts[k].t = "kw" /\ ts[k].s = "import" /\ (acc = <<>> \/ acc[Len(acc)].t = "nl") /\ At(ts, k + 1).t = "str" THEN
        LET n == ts[k + 1].s
            fs == SelectSeq(files, LAMBDA f : f.n = n)
            l == Lex(fs[1].t)
            in == Splice(l.ts, 1, <<>>, chain \cup {n}, files)
            body == IF in.ts # <<>> /\ in.ts[1].t = "nl" THEN Tail(in.ts) ELSE in.ts
            rest == IF (body = <<>> /\ acc # <<>>) \/ (body # <<>> /\ body[Len(body)].t = "nl") THEN k + 3 ELSE k + 2
        IN  IF n \in chain \/ fs = <<>> THEN [r |-> "no", ts |-> <<>>]
            ELSE IF l.err # "" THEN [r |-> l.err, ts |-> <<>>]
            ELSE IF in.r # "yes" THEN in
            ELSE IF ~Balanced(in.ts) \/ At(ts, k + 2).t \notin {"nl", "eof"} THEN [r |-> "open", ts |-> <<>>]
            ELSE IF \E j \in 1..Len(acc) : acc[j].s = "public" /\ \A q \in j..Len(acc) : acc[q].s # "}" THEN [r |-> "open", ts |-> <<>>]
            ELSE Splice(ts, rest, acc \o body, chain, files)
    ELSE IF ts[k].t = "str" THEN [r |-> "open", ts |-> <<>>]
    ELSE LET z == CHOOSE z \in k..Len(ts) : /\ \A q \in (k + 1)..z : ts[q].t # "str" /\ ts[q].s # "import"
                                            /\ z = Len(ts) \/ ts[z + 1].t = "str" \/ ts[z + 1].s = "import"
         IN  Splice(ts, z + 1, acc \o SubSeq(ts, k, z), chain, files)

ReadWith(chars, files) ==
    LET l == Lex(chars)
        j == TLCEval(Splice(l.ts, 1, <<>>, {}, files)) IN
    IF l.err = "open" THEN [r |-> "open", top |-> <<>>, p |-> 0]
    ELSE IF l.err = "no" THEN [r |-> IF \E k \in 1..Len(l.ts) : l.ts[k].t = "str" THEN "open" ELSE "no", top |-> <<>>, p |-> Len(l.ts)]
    ELSE IF j.r # "yes" THEN [r |-> j.r, top |-> <<>>, p |-> 0]
    ELSE LET x == Stmts(j.ts, 1, <<>>, TRUE) IN
         [r |-> x.r, top |-> IF Good(x) THEN x.a ELSE <<>>, p |-> x.p]
Read(chars) == ReadWith(chars, <<>>)
=============================================================================
