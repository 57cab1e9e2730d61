----------------------------------- MODULE Runs -----------------------------------
(***************************************************************************)
(* Where runs keep their files and what their stages may touch. Names are   *)
(* sequences of characters, paths sequences of strings. An operation is      *)
(*   [stage, run, sub, days, uids, ...]: days and events it is about.         *)
(* A label says what a file is, apart from which run it is of.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Clean(_)
\* '.' cannot be carried by file names that get a suffix
Clean(n) == IF n = <<>> THEN ""
            ELSE (IF Head(n) = "." THEN "_" ELSE Head(n)) \o Clean(Tail(n))
Full(run, sub) == IF sub = <<>> THEN Clean(run) ELSE Clean(run) \o "_" \o Clean(sub)
Base(run, stage) == <<Clean(run), stage>>
Dir(run, stage, sub) == Base(run, stage) \o (IF sub = <<>> THEN <<>> ELSE <<Clean(sub)>>)

DetectFiles(op) ==
  UNION {{<<<<"scan", d>>, Base(op.run, "detect") \o <<"scanmseed", d \o ".scanmseed">>>>,
          <<<<"avail", d>>, Base(op.run, "detect") \o
              <<"availability", d \o "_StationAvailability.csv">>>>} : d \in op.days}
TriggerFiles(op) ==
  LET D == Dir(op.run, "trigger", op.sub)
      F == Full(op.run, op.sub)
  IN UNION {{<<<<"events", d>>, D \o <<"events", F \o "_" \o d \o "_TriggeredEvents.csv">>>>,
             <<<<"plot", d>>, D \o <<"summaries", F \o "_" \o d \o "_Trigger.pdf">>>>}
            : d \in op.days}
LocateKinds == {<<"events", ".event">>, <<"picks", ".picks">>, <<"amplitudes", ".amps">>,
                <<"coalescence_maps", ".npy">>, <<"marginalised_coalescence_maps", ".npy">>,
                <<"raw_cut_waveforms", ".m">>, <<"real_cut_waveforms", ".m">>,
                <<"wa_cut_waveforms", ".m">>}
LocateFiles(op) ==
  LET D == Dir(op.run, "locate", op.sub)
      F == Full(op.run, op.sub)
  IN UNION {{<<<<k[1], u>>, D \o <<k[1], u \o k[2]>>>> : k \in LocateKinds}
            \cup {<<<<"plot", u>>, D \o <<"summaries", F \o "_" \o u \o "_EventSummary.pdf">>>>,
                  <<<<"plot-amps", u>>, D \o <<"amplitude_plots", F \o "_" \o u \o "_AmpVsDistance.pdf">>>>}
            \cup {<<<<"plot-picks", u \o s>>, D \o <<"pick_plots", u, u \o "_" \o s \o ".pdf">>>>
                  : s \in op.stations} : u \in op.uids}
Files(op) == CASE op.stage = "detect" -> DetectFiles(op)
               [] op.stage = "trigger" -> TriggerFiles(op)
               [] op.stage = "locate" -> LocateFiles(op)
\* the log of an operation, its time stamp aside
LogFile(op) == Dir(op.run, op.stage, op.sub) \o <<"logs", Full(op.run, op.sub) \o "_STAMP.log">>
Owned(op) == {f[2] : f \in Files(op)} \cup (IF op.log THEN {LogFile(op)} ELSE {})
\* what a stage reads: paths whose contents its output may depend on
Reads(op) == CASE op.stage = "detect" -> {}
               [] op.stage = "trigger" ->
                    {<<<<"scan", d>>, Base(op.run, "detect") \o <<"scanmseed", d \o ".scanmseed">>>>
                     : d \in op.rdays}
               [] op.stage = "locate" ->
                    {<<<<"events", d>>, Dir(op.run, "trigger", op.sub) \o
                       <<"events", Full(op.run, op.sub) \o "_" \o d \o "_TriggeredEvents.csv">>>>
                     : d \in op.rdays}
\* with a store (set of <<path, content>>), what an operation is given
Given(op, store) == {<<f[1], t[2]>> : f \in Reads(op), t \in store}
                    \cap UNION {{<<f[1], t[2]>> : t \in {x \in store : x[1] = f[2]}} : f \in Reads(op)}
=============================================================================
