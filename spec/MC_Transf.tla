------------------------------ MODULE MC_Transf ------------------------------
(* The life of a transform: made, perhaps with parameters, learned from one data *)
(* set after another, and applied.                                               *)
EXTENDS Transf, Json
CONSTANTS NF, C0, SC, WT, EVERY
VARIABLES s, t, fits
vars == <<s, t, fits>>
KS == Kinds \ {"mvn"}
None == [kind |-> ""]
Init == s = InitSt(0) /\ t = None /\ fits = <<>>
Had == <<<<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>>>>
\* a data set: centre, scale of each axis, samples at the centre, weight
Rows(c, a, b) == [i \in 1..4 |-> <<c + (a * Had[i][1]), (b * Had[i][2]) - c>>]
Data(d) == Rows(d.c, d.a, d.b) \o [i \in 1..d.x |-> <<d.c, -d.c>>]
Wts(d) == [i \in 1..(4 + d.x) |-> IF i <= 4 THEN d.w ELSE 1]
\* two or four classes with means on a block, and a block of samples each
Shift(q, m) == [i \in DOMAIN q |-> <<q[i][1] + m[1], q[i][2] + m[2]>>]
ClData(d) == LET ms == IF d.x = 0 THEN <<<<d.c + d.b, 0>>, <<d.c - d.b, 0>>>> ELSE Shift(Rows(0, d.b, d.x + d.b), <<d.c, 0>>)
                 RECURSIVE F(_)
                 F(k) == IF k > Len(ms) THEN <<>> ELSE Shift(Rows(0, d.a, d.b), ms[k]) \o F(k + 1)
             IN F(1)
ClIds(d) == [i \in DOMAIN ClData(d) |-> ((i + 3) \div 4)]
Z(k, d) == IF ByClass(k) THEN ClData(d) ELSE Data(d)
W(k, d) == IF ByClass(k) THEN [i \in DOMAIN ClData(d) |-> 1] ELSE Wts(d)
Cl(k, d) == IF ByClass(k) THEN ClIds(d) ELSE [i \in DOMAIN Data(d) |-> 0]
New == /\ t = None /\ fits = <<>>
       /\ \E k \in KS, kk \in 0..2, umu \in BOOLEAN, uT \in BOOLEAN, ini \in BOOLEAN :
            /\ kk = 0 \/ k \in {"pca", "lda", "nda", "nap"}
            /\ k = "nap" => kk > 0
            /\ k \in {"nda", "nap"} => umu /\ uT /\ ~ini
            /\ ~ini => uT
            /\ LET x == [kind |-> k, k |-> kk, umu |-> umu, uT |-> uT, m |-> <<1, -2>>, q |-> <<4, 9>>, s0 |-> 4, ord |-> <<2, 1>>, sg |-> <<1, 1>>]
               IN t' = [kind |-> k, ini |-> ini] /\ s' = Judge(s, [op |-> "new", kind |-> k, t |-> x, exc |-> "", same |-> TRUE]).st /\ UNCHANGED fits
Fit == /\ t # None /\ Len(fits) < NF
       /\ \E c \in C0, a \in SC, b \in SC, x \in 0..1, w \in WT :
            LET d == [c |-> c, a |-> a, b |-> b, x |-> x, w |-> w]
            IN /\ ByClass(t.kind) => w = 1
               /\ Designed(t.kind, Z(t.kind, d), W(t.kind, d), Cl(t.kind, d))
               /\ fits' = Append(fits, d)
               /\ s' = Judge(s, [op |-> "fit", kind |-> t.kind, r |-> 1, z |-> Z(t.kind, d), w |-> W(t.kind, d), cls |-> Cl(t.kind, d), exc |-> "", same |-> TRUE]).st
               /\ UNCHANGED t
Next == New \/ Fit
Spec == Init /\ [][Next]_vars
learned == fits # <<>>
d0 == fits[Len(fits)]
z0 == Z(t.kind, d0)
w0 == W(t.kind, d0)
c0 == Cl(t.kind, d0)
T0 == s.tr[1]
st0 == Stats(t.kind, z0, w0, c0)
\* what is learned is what the last data say, unless it is not to be updated
LastOk == learned => /\ (T0.umu => T0.m = st0.m) /\ (T0.uT => T0.q = st0.q /\ T0.s0 = st0.s0 /\ T0.ord = st0.ord)
                     /\ (~T0.umu => T0.m = <<1, -2>>) /\ (~T0.uT => T0.q = <<4, 9>>)
\* the order of the samples and a sample given twice instead of with weight two do not matter
Rev(q) == [i \in DOMAIN q |-> q[(Len(q) + 1) - i]]
RECURSIVE Rep(_, _)
Rep(q, w) == IF q = <<>> THEN <<>> ELSE [i \in 1..Head(w) |-> Head(q)] \o Rep(Tail(q), Tail(w))
OrderOk == learned => Stats(t.kind, Rev(z0), Rev(w0), Rev(c0)) = st0
WeightOk == (learned /\ ~ByClass(t.kind)) => LET y == Rep(z0, w0) IN Stats(t.kind, y, Ones(y), [i \in DOMAIN y |-> 0]) = st0
\* all the data twice: the same transform
TwiceOk == learned => LET u == Stats(t.kind, z0 \o z0, w0 \o w0, c0 \o c0) IN u.m = st0.m /\ u.ord = st0.ord /\ \A a \in 1..2 : u.q[a] * st0.s0 = st0.q[a] * u.s0
\* whitened data have variance one along each axis, principal axes come in the order of the variances
WhiteOk == (learned /\ T0.umu /\ T0.uT /\ t.kind = "cw") => \A a \in 1..2 : SumSeq([i \in DOMAIN z0 |-> w0[i] * Dev(T0, z0[i], a) * Dev(T0, z0[i], a)]) = T0.q[a]
DownOk == (learned /\ T0.uT /\ t.kind \in {"cw", "pca", "lnorm", "nap"}) => T0.q[T0.ord[1]] > T0.q[T0.ord[2]]
\* what differs between classes survives a discriminant of one dimension
KeepOk == (learned /\ T0.uT /\ t.kind \in {"lda", "nda"}) => LET a == T0.ord[1] IN Between(z0, c0, a, a) > 0
\* a data set and its turned copy: scatters computed from parts of the classes add up
ScatOk == (learned /\ ByClass(t.kind)) => \A a, b \in 1..2 : /\ Near(RefSw(z0, c0, a, b) * st0.s0, 1000 * Within(z0, c0, a, b), 8 * st0.s0)
                                                              /\ a # b => RefSb(z0, c0, a, b) = 0
Emit == learned => LET h == SumSeq([i \in DOMAIN fits |-> (fits[i].a * 3) + (fits[i].b * 5) + (fits[i].x * 7) + fits[i].w + i]) IN
          h % EVERY = 0 => PrintT("@@BEH " \o ToJson([kind |-> t.kind, k |-> T0.k, ini |-> t.ini, umu |-> T0.umu, uT |-> T0.uT, fits |-> fits]))
=============================================================================
