--------------------------------- MODULE Even ---------------------------------
(***************************************************************************)
(* Histograms of scalars, in sixteen classes by value (Top) and by lowest  *)
(* bits (Low), and when they are even.  A history keeps one histogram per  *)
(* slot; an event adds, per slot, a sequence of scalars.                   *)
(***************************************************************************)
EXTENDS Curves

Top(n, x) == BToInt(BDiv(BMul("10", x), n))
Low(n, x) == BToInt(BMod(x, "10"))

\* h with the scalars s[i] added to slot i
HistAdd(n, s, h, C(_, _)) ==
  [i \in DOMAIN s |->
     LET cls == [j \in DOMAIN s[i] |-> C(n, s[i][j])]
     IN [b \in 0 .. 15 |-> (IF i \in DOMAIN h THEN h[i][b] ELSE 0) + Cardinality({j \in DOMAIN cls : cls[j] = b})]]

RECURSIVE Total(_, _)
Total(h, i) == IF i < 0 THEN 0 ELSE h[i] + Total(h, i - 1)

\* with 600 samples and more, between an eighth and two and a half times the
\* share; with 4000 and more, also within eight standard deviations of it
EvenOK(h) ==
  LET n == Total(h, 15) IN
  n >= 600 => \A b \in 0 .. 15 :
                /\ 128 * h[b] >= n /\ 32 * h[b] <= 5 * n
                /\ n >= 4000 => (16 * h[b] - n) * (16 * h[b] - n) <= 1024 * n
===============================================================================
