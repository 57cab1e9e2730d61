---------------------------------- MODULE Pick ----------------------------------
(***************************************************************************)
(* Automatic phase picks of one station. Samples are numbered from 0; a      *)
(* window <<a, b>> holds the samples a..b-1. `arr` are the modelled arrivals *)
(* (samples), `half` the half-widths, n the number of samples.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

PMin(a, b) == IF a < b THEN a ELSE b
PMax(a, b) == IF a > b THEN a ELSE b
\* neighbouring arrivals share the samples between them at the mid-point
Before(arr, i) == {j \in DOMAIN arr : arr[j] < arr[i] \/ (arr[j] = arr[i] /\ j < i)}
After(arr, i) == {j \in DOMAIN arr : arr[j] > arr[i] \/ (arr[j] = arr[i] /\ j > i)}
Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y
Lo(arr, half, i) ==
  LET B == Before(arr, i)
      own == arr[i] - half[i]
  IN IF B = {} THEN PMax(own, 0) ELSE PMax(own, (Largest({arr[j] : j \in B}) + arr[i]) \div 2)
Hi(arr, half, n, i) ==
  LET A == After(arr, i)
      own == arr[i] + half[i]
  IN IF A = {} THEN PMin(own, n) ELSE PMin(own, (Smallest({arr[j] : j \in A}) + arr[i]) \div 2)
Windows(arr, half, n) == [i \in DOMAIN arr |-> <<Lo(arr, half, i), Hi(arr, half, n, i)>>]
InWin(w, k) == w[1] <= k /\ k < w[2]
Outside(W, n) == {k \in 0..(n - 1) : \A i \in DOMAIN W : ~InWin(W[i], k)}

\* order statistics of a sorted sequence, in units of a thousandth of its unit (permille p)
Quantile(q, p) ==
  LET pos == p * (Len(q) - 1)
      k == pos \div 1000
      f == pos % 1000
  IN IF f = 0 THEN q[k + 1] ELSE ((q[k + 1] * (1000 - f)) + (q[k + 2] * f)) \div 1000
\* twice the median
Median2(q) == LET m == Len(q)
              IN IF m % 2 = 1 THEN 2 * q[(m + 1) \div 2] ELSE q[m \div 2] + q[(m \div 2) + 1]

\* the largest run of samples above T around the largest sample of the window
Peak(on, w) == LET S == {k \in w[1]..(w[2] - 1) : TRUE}
               IN IF S = {} THEN -1
                  ELSE CHOOSE k \in S : \A m \in S : on[m + 1] < on[k + 1]
                                          \/ (on[m + 1] = on[k + 1] /\ k <= m)
Pickable(on, w, T) == /\ Peak(on, w) >= 0
                      /\ on[Peak(on, w) + 1] > T
                      /\ \/ Peak(on, w) > w[1] /\ on[Peak(on, w)] > T
                         \/ Peak(on, w) + 1 < w[2] /\ on[Peak(on, w) + 2] > T
=============================================================================
