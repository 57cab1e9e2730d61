--------------------------------- MODULE CutWave ---------------------------------
(***************************************************************************)
(* Cut waveform files of one event. A raw trace is                           *)
(*   [t0, n, dt, resp, c0, c1]: samples at t0 + k * dt (k < n) relative to    *)
(*   the origin time; whether it has a response; samples c0..c1 are all the  *)
(*   same value (c0 > c1: none).                                             *)
(* A request is [type, units, pre, post], 0 meaning uncut.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CAbs(x) == IF x < 0 THEN -x ELSE x
\* samples nearest to a time, both where half-way
Nearest(tr, t) == LET q == (t - tr.t0) \div tr.dt
                  IN {k \in (q - 1)..(q + 2) : 2 * CAbs(tr.t0 + (k * tr.dt) - t) <= tr.dt + 4}
Starts(tr, q) == IF q.pre = 0 THEN {0} ELSE {IF k < 0 THEN 0 ELSE k : k \in Nearest(tr, -q.pre)}
Ends(tr, q) == IF q.post = 0 THEN {tr.n - 1}
               ELSE {IF k > tr.n - 1 THEN tr.n - 1 ELSE k : k \in Nearest(tr, q.post)}
\* the cuts that serve: <<first, last>>; none if the trace lies outside
Cuts(tr, q) == {w \in Starts(tr, q) \X Ends(tr, q) : w[1] <= w[2]}
Flat(tr, w) == w[1] = w[2] \/ (tr.c0 <= w[1] /\ w[2] <= tr.c1)
\* what a file trace is to be
Content(q) == IF q.type = "raw" THEN "raw" ELSE IF q.type = "real" THEN "real-" \o q.units
              ELSE "wa-" \o q.units
Written(tr, q, w) == q.type = "raw" \/ (tr.resp /\ ~Flat(tr, w))
=============================================================================
