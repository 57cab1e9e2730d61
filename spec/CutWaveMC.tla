------------------------------- MODULE CutWaveMC -------------------------------
(***************************************************************************)
(* Any sequence of requests and measurements on one event. Measurements and  *)
(* corrections leave copies behind (as the event's data do); files are made  *)
(* from the raw traces alone. MODE "cache" makes them from what is left       *)
(* behind, which the properties exclude.                                      *)
(***************************************************************************)
EXTENDS CutWave, TLC
CONSTANTS NTr, MaxN, MaxOps, MODE
VARIABLES raw, orig, left, files, ops
vars == <<raw, orig, left, files, ops>>
Traces == [t0 : {-4, -1}, n : 1..MaxN, dt : {2}, resp : BOOLEAN, c0 : {0, 1}, c1 : {-1, 2}]
Requests == [type : {"raw", "real", "wa"}, units : {"displacement", "velocity"},
             pre : {0, 2}, post : {0, 2, 4}]
Init == /\ raw \in {f \in [1..NTr -> Traces] : NTr = 1 \/ f[1].t0 = -4}
        /\ orig = raw /\ left = {} /\ files = {} /\ ops = 0
Made(tr, i, q) == LET C == Cuts(tr, q)
                  IN IF C = {} THEN {}
                     ELSE LET w == CHOOSE x \in C : \A y \in C : x[1] <= y[1] /\ x[2] >= y[2]
                          IN IF Written(tr, q, w) THEN {<<i, w, Content(q)>>} ELSE {}
Write == \E q \in Requests :
  /\ files' = files \cup
       {[q |-> q,
         out |-> IF MODE = "cache" /\ q.pre = 0 /\ q.post = 0 /\ q.type # "raw" /\ left # {}
                 THEN left ELSE UNION {Made(raw[i], i, q) : i \in 1..NTr}]}
  /\ left' = IF q.type = "raw" THEN left
             ELSE left \cup UNION {Made(raw[i], i, q) : i \in 1..NTr}
  /\ UNCHANGED raw
Measure == \E i \in 1..NTr :
  /\ raw[i].resp
  /\ left' = left \cup {<<i, <<0, 0>>, "wa-displacement">>}
  /\ UNCHANGED <<raw, files>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ orig' = orig /\ (Write \/ Measure)
RawKept == raw = orig
\* the same request always gives the same file
OneAnswer == \A f, g \in files : f.q = g.q => f.out = g.out
AsAsked == \A f \in files : \A t \in f.out :
             t[3] = Content(f.q) /\ t[2] \in Cuts(orig[t[1]], f.q)
Complete == \A f \in files : \A i \in 1..NTr :
  (\E w \in Cuts(orig[i], f.q) : Written(orig[i], f.q, w)) => \E t \in f.out : t[1] = i
\* where data exist, at least what was asked for, to half a sample
Covers == \A f \in files : \A t \in f.out :
  LET tr == orig[t[1]]
  IN /\ f.q.pre # 0 => t[2][1] = 0 \/ 2 * (tr.t0 + t[2][1] * tr.dt) <= tr.dt - 2 * f.q.pre
     /\ f.q.post # 0 => t[2][2] = tr.n - 1 \/ 2 * (tr.t0 + t[2][2] * tr.dt) >= 2 * f.q.post - tr.dt
=============================================================================
