----------------------------- MODULE Currencies -----------------------------
(* The currencies offered, by their ISO 4217 identities, and what is valued by   *)
(* quotes.  numeric = 0 stands for a currency ISO gives no number.               *)
EXTENDS Integers, Sequences, Rounding
(* symbols are given with characters beyond ASCII spelt U+xxxx *)
Row(code, numeric, name, fractions) == [code |-> code, numeric |-> numeric, name |-> name, fractions |-> fractions]
Symbol == [ZAR |-> "R", CAD |-> "Can$", USD |-> "$", CNY |-> "Y", HKD |-> "HK$", JPY |-> "U+00a5", KRW |-> "W", SAR |-> "SRls", SGD |-> "S$",
           CNH |-> "CNH", CHF |-> "SwF", EUR |-> "U+20ac", GBP |-> "U+00a3", NOK |-> "NKr", SEK |-> "kr", AUD |-> "A$", NZD |-> "NZ$"]
FractionSymbol(code) == CASE code = "USD" -> "U+00a2" [] code = "GBP" -> "p" [] OTHER -> ""
(* amounts in euro are rounded to the closest cent; no other currency has a rounding convention *)
RoundedTo(code) == IF code = "EUR" THEN <<"closest", 2, 5>> ELSE <<"none", 0, 0>>
Table == {Row("ZAR", 710, "south-african rand", 100), Row("CAD", 124, "canadian dollar", 100), Row("USD", 840, "u.s. dollar", 100),
          Row("CNY", 156, "chinese yuan", 100), Row("HKD", 344, "hong kong dollar", 100), Row("JPY", 392, "japanese yen", 100),
          Row("KRW", 410, "south-korean won", 100), Row("SAR", 682, "saudi riyal", 100), Row("SGD", 702, "singapore dollar", 100),
          Row("CNH", 0, "chinese yuan (hong kong)", 100), Row("CHF", 756, "swiss franc", 100), Row("EUR", 978, "european euro", 100),
          Row("GBP", 826, "british pound sterling", 100), Row("NOK", 578, "norwegian krone", 100), Row("SEK", 752, "swedish krona", 100),
          Row("AUD", 36, "australian dollar", 100), Row("NZD", 554, "new zealand dollar", 100)}
RowOf(code) == CHOOSE r \in Table : r.code = code
Codes == {r.code : r \in Table}
(* n thousandths of a unit, rounded the way the currency is, in thousandths *)
RoundedIn(code, n) ==
    LET w == RoundedTo(code) IN
    IF w[1] = "none" THEN n ELSE Round(w[1], n, 1000, w[2], w[3]) * Pow10(3 - w[2])
MayGoEitherWay(code, n) == LET w == RoundedTo(code) IN w[1] # "none" /\ Delicate(w[1], n, 1000, w[2], w[3])
(* ---- quotes and what they value ------------------------------------------------ *)
(* quotes: the value of each; holds: the quote each instrument is valued by         *)
SetQuote(quotes, k, v) == [quotes EXCEPT ![k] = v]
Worth(quotes, holds, j) == quotes[holds[j]]
=============================================================================
