----------------------------- MODULE SyntaxGen ------------------------------
(* All strings of tokens up to a length; TLC lists them, the real parser reads  *)
(* them, TextTrace says what they mean.                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE s
Bound == atoi(IOEnv.BOUND)
Alphabet == CASE IOEnv.ALPHABET = "sums"  -> {"x", "2", "+", "-", "*", "/", "(", ")"}
              [] IOEnv.ALPHABET = "calls" -> {"x", "2", "+", "*", "(", ")", "f(", "g(", "a", "[", "]", ","}
              [] IOEnv.ALPHABET = "signs" -> {"x", "y", "-", "*", "(", "=", "<", ">", "&", "!", "|", "+", "a["}
              [] IOEnv.ALPHABET = "odd"   -> {"x", "+", "(", ")", "{", "}", "[", "]", ";", ":", "$", "if", "f", "a"}
Init == s = <<>>
Next == Len(s) < Bound /\ \E t \in Alphabet : s' = Append(s, t)
Spec == Init /\ [][Next]_s
Listed == s # <<>> => PrintT(ToJson([s |-> s]))
=============================================================================
