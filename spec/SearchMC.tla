------------------------------- MODULE SearchMC -------------------------------
(* The algorithms behind the searches, step by step: in lanes of several keys at  *)
(* once with signed comparison and a remainder, and by halving.                    *)
EXTENDS Search
CONSTANTS M, L, Lanes, Bad
\* keys have one digit, 0..2M-1; as signed numbers, those from M on are negative
Digits == 0..(2 * M - 1)
Signed(x) == IF x >= M THEN x - 2 * M ELSE x
Flip(x) == IF Bad = "sign" THEN x ELSE (x + M) % (2 * M)
\* the comparison that vectors have
Above(x, t) == Signed(Flip(x)) > Signed(Flip(t))
K(a) == [i \in 1..Len(a) |-> <<a[i]>>]

VARIABLES alg, a, n, t, i, acc, lo, hi, done
vars == <<alg, a, n, t, i, acc, lo, hi, done>>

\* halving needs ascending keys
Sorted(s) == \A x \in 1..(Len(s) - 1) : s[x] < s[x + 1]
Init == /\ alg \in {"first", "count", "all", "lower", "upper"}
        /\ a \in UNION {[1..m -> Digits] : m \in 0..L}
        /\ IF alg \in {"lower", "upper"} THEN Sorted(a) ELSE TRUE
        /\ n \in IF alg \in {"count", "all"} THEN 0..Len(a) ELSE {Len(a)}
        /\ t \in Digits
        /\ i = 0 /\ lo = 0 /\ hi = n /\ done = FALSE
        /\ acc = CASE alg = "all" -> {} [] alg = "first" -> -1 [] alg = "lower" -> <<0, -1>> [] OTHER -> 0

End == IF Bad = "over" THEN Len(a) ELSE n
\* what one batch of positions adds to the result
Batch(ps) ==
    CASE alg = "first" -> LET w == {p \in ps : a[p + 1] = t}
                          IN IF w = {} THEN acc' = acc /\ done' = FALSE
                             ELSE /\ done' = TRUE
                                  /\ acc' = CHOOSE p \in w : \A q \in w : IF Bad = "last" THEN p >= q ELSE p <= q
      [] alg = "count" -> acc' = acc + Cardinality({p \in ps : ~Above(a[p + 1], t)}) /\ done' = FALSE
      [] alg = "all" -> acc' = acc \cup {p \in ps : a[p + 1] = t} /\ done' = FALSE
Vector == /\ alg \in {"first", "count", "all"} /\ ~done
          /\ IF i + Lanes <= End
             THEN Batch(i..(i + Lanes - 1)) /\ i' = i + Lanes
             ELSE IF i < End /\ Bad # "rest"
             THEN Batch({i}) /\ i' = i + 1
             ELSE done' = TRUE /\ UNCHANGED <<acc, i>>
          /\ UNCHANGED <<alg, a, n, t, lo, hi>>
Halve == /\ alg \in {"lower", "upper"} /\ ~done
         /\ LET m == (lo + hi) \div 2
            IN IF lo >= hi
               THEN done' = TRUE /\ acc' = (IF alg = "lower" THEN <<lo, -1>> ELSE lo) /\ UNCHANGED <<lo, hi>>
               ELSE IF t < a[m + 1]
               THEN hi' = (IF Bad = "skip" THEN (IF m = 0 THEN 0 ELSE m - 1) ELSE m) /\ UNCHANGED <<lo, acc, done>>
               ELSE IF t = a[m + 1]
               THEN done' = TRUE /\ acc' = (IF alg = "lower" THEN <<m, m>> ELSE IF Bad = "left" THEN m ELSE m + 1) /\ UNCHANGED <<lo, hi>>
               ELSE lo' = m + 1 /\ UNCHANGED <<hi, acc, done>>
         /\ UNCHANGED <<alg, a, n, t, i>>
Next == Vector \/ Halve
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == done => CASE alg = "first" -> acc = First(K(a), n, <<t>>)
                   [] alg = "count" -> acc = CountLeq(K(a), n, <<t>>)
                   [] alg = "all" -> acc = Where(K(a), n, <<t>>)
                   [] alg = "lower" -> acc = <<Lower(K(a), <<t>>), IF Member(K(a), <<t>>) THEN Lower(K(a), <<t>>) ELSE -1>>
                   [] alg = "upper" -> acc = Upper(K(a), <<t>>)
\* what is left out of a halving is not wanted
Inside == alg \in {"lower", "upper"} => (lo <= Upper(K(a), <<t>>) /\ Lower(K(a), <<t>>) <= hi)
Ends == <>done
=============================================================================
