----------------------------- MODULE QuoteModel -----------------------------
(* Instruments valued by quotes that move, and purses of money; every history    *)
(* of moves and valuations up to L steps, with the identities of the currencies.  *)
EXTENDS Currencies, TLC, FiniteSets
CONSTANTS L, Values
Distinct == /\ Cardinality(Codes) = Cardinality(Table)
            /\ Cardinality({r.name : r \in Table}) = Cardinality(Table)
            /\ \A r, s \in Table : r # s => r.numeric # s.numeric \/ r.numeric = 0
            /\ \A r \in Table : r.fractions > 0 /\ r.numeric \in 0..999
VARIABLES quotes, holds, asked, n
vars == <<quotes, holds, asked, n>>
Init == quotes \in [{1, 2} -> Values] /\ holds \in [{1, 2} -> {1, 2}] /\ asked = <<>> /\ n = 0
Moves == \E k \in {1, 2}, v \in Values : quotes' = SetQuote(quotes, k, v) /\ UNCHANGED <<holds, asked>>
Asks == \E j \in {1, 2} : asked' = Append(asked, <<j, Worth(quotes, holds, j)>>) /\ UNCHANGED <<quotes, holds>>
Next == n < L /\ n' = n + 1 /\ (Moves \/ Asks)
Spec == Init /\ [][Next]_vars
(* instruments on the same quote are always worth the same; other quotes do not matter *)
Shared == holds[1] = holds[2] => Worth(quotes, holds, 1) = Worth(quotes, holds, 2)
Fresh == [][\A j \in {1, 2} : quotes'[holds[j]] = quotes[holds[j]] => Worth(quotes', holds', j) = Worth(quotes, holds, j)]_vars
Known == \A k \in DOMAIN asked : asked[k][2] \in Values
=============================================================================
