------------------------------ MODULE ImmModel ------------------------------
(* A day that advances one at a time through [From, To]: the next IMM date and *)
(* the standard maturities as functions of time.                              *)
EXTENDS Imm
CONSTANTS From, To
VARIABLES day, nxt, mat
Tenors == {<<0, 3>>, <<3, 3>>, <<6, 3>>, <<9, 3>>, <<1, 4>>, <<5, 4>>}
Rules == {8, 9, 10}
View(s) == [k \in Rules |-> [t \in Tenors |-> Maturity(s, t[1], t[2], k)]]
Init == day = From /\ nxt = [b \in BOOLEAN |-> NextImm(From, b)] /\ mat = View(From)
Next == day < To /\ day' = day + 1
        /\ nxt' = [b \in BOOLEAN |-> IF nxt[b] = day + 1 THEN NextImm(day + 1, b) ELSE nxt[b]]
        /\ mat' = View(day + 1)
Spec == Init /\ [][Next]_<<day, nxt, mat>>
(* stepping from one IMM date to the next visits every one: the remembered successor is right *)
NextIsFirst == \A b \in BOOLEAN : nxt[b] = NextImm(day, b) /\ nxt[b] > day /\ ImmDate(nxt[b], b)
NoneBetween == \A b \in BOOLEAN : ImmDate(day, b) => \E s \in (day - 120)..(day - 1) : InRange(s) /\ NextImm(s, b) = day
MainIsLater == nxt[FALSE] <= nxt[TRUE]
CodesTurnBack == ImmDate(day, FALSE) =>
    /\ IsCode(CodeOf(day), FALSE) /\ (MainMonth(MonthOf(day)) <=> IsCode(CodeOf(day), TRUE))
    /\ \A back \in {0, 1, 31, 365, 1000, 3000, 3640} :
          InRange(day - back) => DateOfCode(CodeOf(day), day - back) = day
AfterTrade == \A k \in Rules, t \in Tenors : mat[k][t] \in {Refused, NoMaturity} \/ mat[k][t] > day
OnTwentieth == \A k \in Rules, t \in Tenors : mat[k][t] \in {Refused, NoMaturity} \/
                   (DayOf(mat[k][t]) = 20 /\ MainMonth(MonthOf(mat[k][t])))
LongerIsLater == \A k \in Rules, a, b \in Tenors :
    (mat[k][a] > 0 /\ mat[k][b] > 0 /\ a[1] * (IF a[2] = 4 THEN 12 ELSE 1) <= b[1] * (IF b[2] = 4 THEN 12 ELSE 1))
       => mat[k][a] <= mat[k][b]
Semiannual == \A t \in {<<6, 3>>, <<1, 4>>, <<5, 4>>} : MonthOf(mat[10][t]) \in {6, 12}
NeverBack == [][\A k \in Rules, t \in Tenors : (mat[k][t] > 0 /\ mat'[k][t] > 0) => mat[k][t] <= mat'[k][t]]_mat
RollsOnly == [][\A t \in Tenors : (mat[10][t] > 0 /\ mat'[10][t] > 0 /\ mat[10][t] # mat'[10][t])
                   => DayOf(day + 1) = 20 /\ MonthOf(day + 1) \in {3, 9}]_mat
=============================================================================
