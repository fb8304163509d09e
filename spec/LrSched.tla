------------------------------ MODULE LrSched ------------------------------
(* hyperion/torch/lr_schedulers: the learning rate of every parameter group   *)
(* after any history of epochs, batches, metrics, saving and restoring.       *)
(* Rates are whole numbers of a unit; what is observed is in thousandths of   *)
(* it, what is expected an interval of thousandths.                           *)
(* c: kind (1 exp 2 cos 3 plateau), base, min (per group), warm, onb;         *)
(*  exp: rk (rate 2^-rk), ds, hold; cos: T, mul, wr, gk (gamma 2^-gk);        *)
(*  plateau: f (factor 1/f), pat, thr (abs: thr, rel: 1/2^thr), rel, max,     *)
(*  cool, eps (in thousandths)                                                 *)
EXTENDS Util

CosQ == <<10000, 9998, 9993, 9985, 9973, 9957, 9938, 9916, 9891, 9862, 9830, 9794, 9755, 9713, 9668, 9619, 9568, 9513, 9455, 9394, 9330, 9263, 9193, 9121, 9045, 8967, 8886, 8802, 8716, 8627, 8536, 8442, 8346, 8247, 8147, 8044, 7939, 7832, 7723, 7612, 7500, 7386, 7270, 7153, 7034, 6913, 6792, 6669, 6545, 6420, 6294, 6167, 6040, 5911, 5782, 5653, 5523, 5392, 5262, 5131, 5000, 4869, 4738, 4608, 4477, 4347, 4218, 4089, 3960, 3833, 3706, 3580, 3455, 3331, 3208, 3087, 2966, 2847, 2730, 2614, 2500, 2388, 2277, 2168, 2061, 1956, 1853, 1753, 1654, 1558, 1464, 1373, 1284, 1198, 1114, 1033, 955, 879, 807, 737, 670, 606, 545, 487, 432, 381, 332, 287, 245, 206, 170, 138, 109, 84, 62, 43, 27, 15, 7, 2, 0>>   \* half of 1 + cos(pi i / 120), in ten thousandths
Pow == <<10000, 9439, 8909, 8409, 7937, 7492, 7071, 6674, 6300, 5946, 5612, 5297>>    \* 2^(-i/12)
CeilDiv(a, b) == (a + b - 1) \div b
NG(c) == Len(c.base)
Iv(v, tol) == <<v - tol, v + tol>>
Tol(c, i) == (c.base[i] \div 8) + 3
Exact(c, i, v) == <<v - 2, v + 2>>

Fresh(c) == [epoch |-> -1, batch |-> -1, t |-> c.T, restart |-> 0, nrest |-> 0, nobest |-> TRUE, best |-> 0, bad |-> 0, cool |-> 0,
             lr |-> [i \in 1..NG(c) |-> c.base[i] * 1000]]
InWarm(c, z) == c.warm > 0 /\ z.batch <= c.warm
WarmLr(c, z) == [i \in 1..NG(c) |-> Exact(c, i, (c.min[i] * 1000) + (((c.base[i] - c.min[i]) * 1000 * z.batch) \div c.warm))]
(* exponential: hold, then the rate to the power of the steps over decay_steps, not below the minimum *)
Half(v, n) == IF n > 25 THEN 0 ELSE v \div (2 ^ n)
ExpLr(c, step) == [i \in 1..NG(c) |->
  IF step < c.hold THEN Exact(c, i, c.base[i] * 1000)
  ELSE LET e == (c.rk * (step - c.hold) * 12) \div c.ds                       \* in twelfths, floor
           u == (c.rk * (step - c.hold) * 12) % c.ds = 0
           hi == Half((c.base[i] * 1000 * Pow[(e % 12) + 1]) \div 10000, e \div 12)
           lo == IF u THEN hi ELSE Half((c.base[i] * 1000 * Pow[((e + 1) % 12) + 1]) \div 10000, (e + 1) \div 12)
       IN <<Max2(c.min[i] * 1000, lo - Tol(c, i)), Max2(c.min[i] * 1000, hi + Tol(c, i))>>]
(* cosine with warm restarts: the state after being asked for a step, and the rates *)
CosAt(c, z, step) ==
  LET x0 == step - z.restart
      t1 == IF x0 >= z.t /\ c.onb /\ c.wr /\ z.epoch = 0 THEN x0 + 1 ELSE z.t      \* a period lasts an epoch at least
      z1 == IF x0 >= t1 /\ c.wr THEN [z EXCEPT !.t = t1 * c.mul, !.restart = step, !.nrest = @ + 1] ELSE [z EXCEPT !.t = t1]
      x == step - z1.restart
      lrs == [i \in 1..NG(c) |->
         IF x >= z1.t THEN Exact(c, i, c.min[i] * 1000)
         ELSE LET a == Half(c.base[i] * 1000, c.gk * z1.nrest)
                  d == Max2(a - (c.min[i] * 1000), 0)
                  j == (120 * x) \div z1.t
                  u == (120 * x) % z1.t = 0
                  hi == (c.min[i] * 1000) + ((d * CosQ[j + 1]) \div 10000)
                  lo == IF u THEN hi ELSE (c.min[i] * 1000) + ((d * CosQ[j + 2]) \div 10000)
              IN <<Max2(c.min[i] * 1000, lo - Tol(c, i)), hi + Tol(c, i)>>]
  IN [z |-> z1, lr |-> lrs]
Same(z) == [i \in 1..Len(z.lr) |-> <<z.lr[i], z.lr[i]>>]
Ask(c, z, step) == IF c.kind = 1 THEN [z |-> z, lr |-> ExpLr(c, step)] ELSE CosAt(c, z, step)

Begin(c, z, e) == LET z1 == [z EXCEPT !.epoch = IF e = -1 THEN @ + 1 ELSE e] IN
                  IF c.kind = 3 \/ c.onb THEN [z |-> z1, lr |-> Same(z)] ELSE Ask(c, z1, z1.epoch)
Batch(c, z) == LET z1 == [z EXCEPT !.batch = @ + 1] IN
               IF InWarm(c, z1) THEN [z |-> z1, lr |-> WarmLr(c, z1)]
               ELSE IF c.kind = 3 \/ ~c.onb THEN [z |-> z1, lr |-> Same(z)] ELSE Ask(c, z1, z1.batch)
(* plateau: a is better than the best so far *)
Better(c, a, b) == IF c.rel THEN (IF c.max THEN (a * (2 ^ c.thr)) > b * ((2 ^ c.thr) + 1) ELSE (a * (2 ^ c.thr)) < b * ((2 ^ c.thr) - 1))
                   ELSE IF c.max THEN a > b + c.thr ELSE a < b - c.thr
End(c, z, m) ==
  IF c.kind = 1 THEN [z |-> z, lr |-> Same(z)]
  ELSE IF c.kind = 2
  THEN LET n == z.batch + 1 IN
       [z |-> IF z.epoch = 0 /\ c.onb /\ c.wr THEN [z EXCEPT !.t = CeilDiv(z.t, n) * n] ELSE z, lr |-> Same(z)]
  ELSE LET good == z.nobest \/ Better(c, m, z.best)
           bad1 == IF good THEN 0 ELSE z.bad + 1
           bad2 == IF z.cool > 0 THEN 0 ELSE bad1
           cool2 == IF z.cool > 0 THEN z.cool - 1 ELSE 0
           red == bad2 > c.pat
           low(i) == Max2(z.lr[i] \div c.f, c.min[i] * 1000)
           d(i) == z.lr[i] - low(i)
           cut(i) == IF c.eps > 0 /\ c.eps - 2 <= d(i) /\ d(i) <= c.eps + 2 THEN <<low(i) - 2, z.lr[i]>>
                     ELSE IF d(i) > c.eps THEN <<low(i) - 2, low(i) + 2>> ELSE <<z.lr[i], z.lr[i]>>
       IN [z |-> [z EXCEPT !.nobest = FALSE, !.best = IF good THEN m ELSE @, !.bad = IF red THEN 0 ELSE bad2, !.cool = IF red THEN c.cool ELSE cool2],
           lr |-> IF red THEN [i \in 1..NG(c) |-> cut(i)] ELSE Same(z)]

(*------------------------------ judging events ------------------------------*)
InitSt(x) == [c |-> x, zs |-> <<>>, saved |-> <<>>]
Outcome(s, e, r, o) ==
  IF e.exc # "" THEN Bad(s, e.op \o " raised " \o e.exc)
  ELSE IF ~(Len(e.lr) = NG(s.c) /\ \A i \in 1..NG(s.c) : o.lr[i][1] <= e.lr[i] /\ e.lr[i] <= o.lr[i][2])
       THEN Bad(s, "learning rate " \o ToString(e.lr) \o " expected " \o ToString(o.lr) \o " state " \o ToString(o.z))
  ELSE Good([s EXCEPT !.zs[r] = [o.z EXCEPT !.lr = e.lr]])
Judge(s, e) ==
  LET c == s.c IN
  CASE e.op = "make" -> IF e.exc # "" THEN Bad(s, "the scheduler could not be made: " \o e.exc)
                        ELSE IF e.lr # [i \in 1..NG(c) |-> c.base[i] * 1000] THEN Bad(s, "the rate changed at once")
                        ELSE Good([s EXCEPT !.zs = Append(@, Fresh(c))])
    [] e.op = "begin" -> Outcome(s, e, e.r, Begin(c, s.zs[e.r], e.epoch))
    [] e.op = "batch" -> Outcome(s, e, e.r, Batch(c, s.zs[e.r]))
    [] e.op = "end" -> Outcome(s, e, e.r, End(c, s.zs[e.r], e.m))
    [] e.op = "save" -> IF e.exc # "" THEN Bad(s, "save raised " \o e.exc) ELSE Good([s EXCEPT !.saved = Append(@, s.zs[e.r])])
    [] e.op = "restore" -> IF e.exc # "" THEN Bad(s, "restore raised " \o e.exc)
                           ELSE IF e.lr # s.saved[e.k].lr THEN Bad(s, "the rate is not the saved one")
                           ELSE Good([s EXCEPT !.zs = Append(@, s.saved[e.k])])
    [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
