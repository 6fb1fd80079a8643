------------------------------ MODULE HelpersMC -----------------------------
(* All small arguments of the helpers; each is printed and given to the code.  *)
EXTENDS Helpers, TLC, Json
CONSTANTS MaxLen, Digit
VARIABLE q
Strs(a, n) == UNION {[1..k -> a] : k \in 0..n}
Nums == {StripZeros(m) : m \in Strs(Digit, MaxLen)}
Kw == Strs({<<"a", 1>>, <<"b", 2>>, <<"a", 3>>}, 2)
Cases ==
  {[op |-> "ffs", v |-> m] : m \in Nums} \cup {[op |-> "ffs", v |-> m, neg |-> TRUE] : m \in Nums} \cup {[op |-> "int_to_array", v |-> m] : m \in Nums}
  \cup {[op |-> "slicer", d |-> d, n |-> n, kind |-> k] : d \in UNION {{[j \in 1..l |-> j + b] : b \in {0, 90}} : l \in 0..9}, n \in 1..10, k \in {"bytes", "bytearray", "list", "tuple", "str", "conv"}}
  \cup {[op |-> "make_list", args |-> a] : a \in Strs({[it |-> "int", v |-> <<7>>], [it |-> "list", v |-> <<1, 2>>], [it |-> "list", v |-> <<>>], [it |-> "tuple", v |-> <<3>>], [it |-> "bytes", v |-> <<200, 0>>], [it |-> "range", v |-> <<0, 1, 2>>], [it |-> "gen", v |-> <<4, 4>>]}, 3)}
  \cup {[op |-> "cygpath", d |-> p \o s] : p \in {<<>>, <<47>>, Prefix, Take(Prefix, 9)}, s \in {<<99>> \o x : x \in {<<>>} \cup {<<47>> \o y : y \in Strs({47, 97, 92}, MaxLen)}}}
  \cup {[op |-> "extract", d |-> <<0, 255, 13, 10, 26, 128>>, o |-> o, n |-> n] : o \in 0..7, n \in 0..7}
  \cup {[op |-> "filler", ch |-> [ty |-> t, v |-> v], n |-> [ty |-> u, v |-> m]] : t \in {"int", "float", "bytes", "none"}, v \in {0, 1, 127, 128, 255, 256, 257, -1, -128}, u \in {"int", "float", "none"}, m \in {-1, 0, 1, 2, 300}}
  \cup {[op |-> "buffer", d |-> d] : d \in Strs({0, 10, 255}, 2)}
  \cup {[op |-> "curry", pend |-> p, kw |-> k, calls |-> <<[a |-> a, kw |-> l], [a |-> <<>>, kw |-> <<>>], [a |-> a, kw |-> l]>>] : p \in Strs({1, 2}, 2), k \in Kw, a \in Strs({3}, 2), l \in Kw}
  \cup {[op |-> "view", d |-> <<1, 2, 3>>, w |-> w, ws |-> ws] : w \in BOOLEAN, ws \in Strs({[o |-> 0, d |-> <<9>>], [o |-> 1, d |-> <<8, 7>>], [o |-> 0, d |-> <<4, 5, 6>>]}, 2)}
  \cup {[op |-> "enums", vs |-> vs, arr |-> a] : vs \in Strs({0, 1, 2, 200}, 3) \ {<<>>}, a \in BOOLEAN}
Init == q \in Cases
Next == FALSE /\ UNCHANGED q
Spec == Init /\ [][Next]_q
Shown == PrintT(ToJson(q))
\* the definitions are inverse to the obvious ones
Sane == CASE q.op = "slicer" -> Flatten(Pieces(q.d, q.n)) = q.d
          [] q.op = "int_to_array" -> StripZeros(DigitsOf(q.v)) = q.v
          [] q.op = "ffs" -> q.v = <<>> \/ LowestBit(q.v) < 8 * Len(q.v)
          [] OTHER -> TRUE
=============================================================================
