------------------------------ MODULE ScoreNorm ------------------------------
(* hyperion/score_norm: normalisation of trial scores with cohort scores.      *)
(* sc[i][j] score of model i and segment j, ec[i][c] of model i and cohort     *)
(* segment c, ct[c][j] of cohort model c and segment j, cc[c][d] of cohort     *)
(* model c and cohort segment d; mec, mct, mcc: which cohort scores may be     *)
(* used.  Scores are small integers; normalised ones are known to a tolerance. *)
EXTENDS Util

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE RootBetween(_, _, _)
RootBetween(v, a, b) == IF b - a <= 1 THEN a ELSE LET m == (a + b) \div 2 IN IF m * m <= v THEN RootBetween(v, m, b) ELSE RootBetween(v, a, m)
ISqrt(v) == RootBetween(v, 0, 46340)
Quot(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
\* values q[c] for the members of a set
Vals(q, C) == LET RECURSIVE F(_)
                  F(S) == IF S = {} THEN <<>> ELSE LET c == MinS(S) IN <<q[c]>> \o F(S \ {c})
              IN F(C)
Sums(v) == <<Len(v), SumSeq(v), SumSeq([i \in DOMAIN v |-> v[i] * v[i]])>>
Var2(t) == (t[1] * t[3]) - (t[2] * t[2])       \* variance times n squared
\* x normalised by the values v, all in units 1/u; deviations below the floor fl[1]/fl[2] count as the floor; result in 1/100
Floored(t, u, fl) == Var2(t) * fl[2] * fl[2] < (t[1] * u * fl[1]) * (t[1] * u * fl[1])
Norm(x, v, u, fl) == LET t == Sums(v)
                         d == (t[1] * x) - t[2]
                     IN IF v = <<>> THEN 0
                        ELSE IF Var2(t) = 0 /\ fl[1] = 0 THEN Quot(10000000 * d, t[1])    \* the default floor, 1e-5
                        ELSE IF Floored(t, u, fl) THEN Quot(100 * d * fl[2], t[1] * u * fl[1])
                        ELSE LET k == IF Var2(t) < 2000 THEN 500 ELSE IF Var2(t) < 2000000 THEN 20 ELSE 4 IN Quot(100 * k * d, ISqrt(k * k * Var2(t)))
\* column j / row i of a matrix
Col(m, j) == [c \in DOMAIN m |-> m[c][j]]
On(b) == {c \in DOMAIN b : b[c]}
Z(s, ec, mec, i, x, fl) == Norm(x, Vals(ec[i], On(mec[i])), 1, fl)
T(s, ct, mct, j, x, fl) == Norm(x, Vals(Col(ct, j), On(Col(mct, j))), 1, fl)
\* sets that hold the best of a ranking q but the first nd: any choice among equals
Desc(v) == SortSeq(v, LAMBDA a, b : a > b)
BestSets(q, may, nb, nd) == LET P == Desc(Vals(q, may))
                                N == Len(q)
                                n == Min2(nb, N - nd)
                                W == SubSeq(P, nd + 1, Min2(Len(P), nd + n))
                            IN {B \in SUBSET may : Cardinality(B) = Len(W) /\ Desc(Vals(q, B)) = W}
\* values that a normalised score may have (in hundredths; the symmetric ones times the root of 2)
ASets(x) == LET zb(j) == BestSets(Col(x.ct, j), On(Col(x.mct, j)), x.nb, x.nd)
                tb(i) == BestSets(x.ec[i], On(x.mec[i]), x.nb, x.nd)
            IN [z |-> [j \in DOMAIN x.sc[1] |-> zb(j)], t |-> [i \in DOMAIN x.sc |-> tb(i)]]
AllOrNone(S) == S
Empty(x, S, i, j) == \E B \in S.z[j] : B \cap On(x.mec[i]) = {} \/ \E C \in S.t[i] : C \cap On(Col(x.mct, j)) = {}
AdaptOf(x, S, i, j) == {Norm(x.sc[i][j], Vals(x.ec[i], B \cap On(x.mec[i])), 1, x.fl) + Norm(x.sc[i][j], Vals(Col(x.ct, j), C \cap On(Col(x.mct, j))), 1, x.fl) : B \in S.z[j], C \in S.t[i]}
Zs(x, i, j) == Z(0, x.ec, x.mec, i, x.sc[i][j], x.fl)
Ts(x, i, j) == T(0, x.ct, x.mct, j, x.sc[i][j], x.fl)
\* cohort scores of segment j, first normalised by the cohort segments; of model i, first normalised by the cohort models
CtZ(x, j) == [c \in DOMAIN x.ct |-> Norm(x.ct[c][j], Vals(x.cc[c], On(x.mcc[c])), 1, x.fl)]
EcT(x, i) == [c \in DOMAIN x.ec[i] |-> Norm(x.ec[i][c], Vals(Col(x.cc, c), On(Col(x.mcc, c))), 1, x.fl)]
ZT(x, i, j) == LET q == CtZ(x, j) IN <<Zs(x, i, j), Vals(q, On(Col(x.mct, j)))>>
TZ(x, i, j) == LET q == EcT(x, i) IN <<Ts(x, i, j), Vals(q, On(x.mec[i]))>>
\* a second stage is judged when its deviation is well above both the floor and the rounding
Sharp(v, fl) == /\ \A k \in DOMAIN v : Abs(v[k]) < 2500
                /\ LET t == Sums(v) IN Var2(t) > t[1] * t[1] * 2500 /\ (Var2(t) \div (t[1] * t[1])) * fl[2] * fl[2] > 11000 * fl[1] * fl[1]
Close(obs, want) == Abs(obs - want) <= 3 + (Abs(want) \div 50)
Rough(obs, want) == Abs(obs - want) <= 12 + (Abs(want) \div 20)
Ok(x, S, i, j, obs) ==
  CASE x.kind = "z" -> Close(obs, Zs(x, i, j))
    [] x.kind = "t" -> Close(obs, Ts(x, i, j))
    [] x.kind = "s" -> Close(obs, Zs(x, i, j) + Ts(x, i, j))
    [] x.kind = "as" -> Empty(x, S, i, j) \/ \E w \in AdaptOf(x, S, i, j) : Close(obs, w)
    [] x.kind = "zt" -> LET r == ZT(x, i, j) IN ~Sharp(r[2], x.fl) \/ Abs(r[1]) > 2500 \/ Rough(obs, Norm(r[1], r[2], 100, x.fl))
    [] OTHER -> LET r == TZ(x, i, j) IN ~Sharp(r[2], x.fl) \/ Abs(r[1]) > 2500 \/ Rough(obs, Norm(r[1], r[2], 100, x.fl))

(*------------------------------- judging events -----------------------------*)
InitSt(x) == [n |-> 0]
Judge(s, e) ==
  IF e.exc # "" THEN Bad(s, e.kind \o "-norm raised " \o e.exc)
  ELSE IF ~e.same THEN Bad(s, e.kind \o "-norm changed its inputs")
  ELSE IF Len(e.y) # Len(e.sc) \/ \E i \in DOMAIN e.sc : Len(e.y[i]) # Len(e.sc[i]) THEN Bad(s, e.kind \o "-norm: shape of the result")
  ELSE LET S == IF e.kind = "as" THEN ASets(e) ELSE [z |-> <<>>, t |-> <<>>]
           W == {p \in (DOMAIN e.sc) \X (DOMAIN e.sc[1]) : ~Ok(e, S, p[1], p[2], e.y[p[1]][p[2]])}
       IN IF W # {} THEN Bad(s, e.kind \o "-norm of trial " \o ToString(CHOOSE p \in W : TRUE)) ELSE Good(s)
=============================================================================
