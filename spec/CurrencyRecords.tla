--------------------------- MODULE CurrencyRecords --------------------------
(* Judges the identities of currencies, money and what quotes value (C40).       *)
EXTENDS Currencies, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
BadCurrency(r) ==
    IF r.type \notin Codes THEN {"unknown-currency"}
    ELSE LET e == RowOf(r.type) IN
         Fail("code", r.code = e.code)
         \cup Fail("numeric-code", e.numeric = 0 \/ r.numeric = e.numeric)
         \cup Fail("name", r.name = e.name)
         \cup Fail("fractions", r.fractions = e.fractions)
         \cup Fail("symbol", r.symbol = Symbol[r.type])
         \cup Fail("fraction-symbol", r.fracsym = FractionSymbol(r.type))
         \cup Fail("no-minor-units", r.minors = 0)
         \cup Fail("no-triangulation", r.tri = 0)
         \cup Fail("rounding", \A k \in DOMAIN r.rounds : LET x == r.rounds[k] IN x[2] = RoundedIn(r.type, x[1]) \/ MayGoEitherWay(r.type, x[1]))
         \cup Fail("same-however-made", r.same = 1)
BadAll(r) == Fail("every-currency", {r.types[k] : k \in DOMAIN r.types} = Codes)
             \cup Fail("codes-differ", \A j, k \in DOMAIN r.codes : j # k => r.codes[j] # r.codes[k])
             \cup Fail("names-differ", \A j, k \in DOMAIN r.names : j # k => r.names[j] # r.names[k])
             \cup Fail("unequal", r.unequal = 1)
(* money: <<type, what was put in, code and amount got out>> *)
BadMoney(r) == Fail("amount-kept", r.got = r.put) \cup Fail("currency-kept", r.code = r.type)
(* a history of moves <<0, quote, value>> and valuations <<1, instrument, value seen, quote read>> *)
RECURSIVE Replay(_, _, _, _)
Replay(quotes, holds, ops, k) ==
    IF k > Len(ops) THEN {}
    ELSE LET o == ops[k] IN
         IF o[1] = 0 THEN Replay(SetQuote(quotes, o[2], o[3]), holds, ops, k + 1)
         ELSE Fail("instrument-worth", o[3] = Worth(quotes, holds, o[2])) \cup Replay(quotes, holds, ops, k + 1)
BadQuotes(r) == Fail("quote-value", r.read = r.put) \cup Fail("simple-quotes-are-valid", r.valid = 1)
                \cup Fail("stock", r.stock = r.put) \cup Replay(r.quotes, r.holds, r.ops, 1)
Bad(r) == CASE r.k = "currency" -> BadCurrency(r)
            [] r.k = "currencies" -> BadAll(r)
            [] r.k = "money" -> BadMoney(r)
            [] r.k = "quotes" -> BadQuotes(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
