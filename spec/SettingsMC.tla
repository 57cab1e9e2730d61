----------------------------- MODULE SettingsMC -----------------------------
(***************************************************************************)
(* Design: objects of every kind through all histories of N assignments from *)
(* small sets of values: what holds of any object that can be used.          *)
(***************************************************************************)
EXTENDS Settings, FiniteSets
CONSTANTS N
VARIABLES kind, obj, out, steps, before
vars == <<kind, obj, out, steps, before>>
Fn(S, V) == UNION {[D -> V] : D \in SUBSET S}
NumArgs == [trigger |-> Fn({"marginal_window", "min_event_interval", "minimum_repeat"}, {500, 2000, 4000}),
            scan |-> {[onset_rate |-> r] @@ f : r \in {10000, 20000}, f \in Fn({"timestep", "time_step", "threads", "n_cores"}, {1000, 2000})},
            onset |-> Fn({"min_onset_value"}, {9, 10, 400}),
            picker |-> Fn({"mad_pick_threshold", "pick_threshold"}, {1000}),
            amplitude |-> Fn({"highpass_freq", "bandpass_lowcut", "bandpass_highcut", "water_level"}, {1000}),
            magnitude |-> Fn({"noise_filter"}, {0, 1000}), archive |-> {<<>>}, grid |-> {<<>>}]
Bool == {"True", "False"}
TextArgs == [trigger |-> Fn({"threshold_method"}, {"static", "mad", "dynamic", "other"}),
             scan |-> {[onset |-> o] @@ p @@ m : o \in {"onset", "str"}, p \in Fn({"picker"}, {"picker", "str"}),
                         m \in Fn({"mags"}, {"mags", "str"})},
             onset |-> {[class |-> k] @@ f @@ g @@ h : k \in {"STALTAOnset", "CentredSTALTAOnset", "ClassicSTALTAOnset"},
                          f \in Fn({"position"}, {"classic", "centred", "x"}), g \in Fn({"onset_centred"}, Bool),
                          h \in Fn({"sampling_rate"}, {"f"})},
             picker |-> Fn({"threshold_method"}, {"MAD", "percentile", "x"}),
             amplitude |-> Fn({"highpass_filter", "bandpass_filter"}, Bool),
             magnitude |-> Fn({"A0"}, {"UK"}),
             archive |-> Fn({"archive_format", "format"}, {"SeisComp3", "x", "YEAR_JD/STATION*"}), grid |-> {<<>>}]
Filters == {<<2000, 16000, 2000>>, <<1000, 4000, 4000>>}
Lists == {<<0>>, <<500>>, <<1500, 2000, 700>>, <<1000, 1000>>}
ListArgs == [trigger |-> {<<>>}, scan |-> {<<>>}, onset |-> Fn({"p_bp_filter", "S_filter"}, Filters), picker |-> {<<>>},
             amplitude |-> {<<>>}, magnitude |-> {<<>>}, archive |-> {<<>>},
             grid |-> {[size |-> <<3000, 2000, 2001>>, node_spacing |-> v] : v \in Lists}]
ListSets == [trigger |-> {}, scan |-> {}, onset |-> {"p_bp_filter", "P_filter", "s_bp_filter"} \X Filters, picker |-> {},
             amplitude |-> {}, magnitude |-> {}, archive |-> {},
             grid |-> {"node_count", "cell_count", "node_spacing", "cell_size"} \X Lists]
NumSets == [trigger |-> {"marginal_window", "min_event_interval", "minimum_repeat"} \X {500, 2000, 4000},
            scan |-> ({"timestep", "time_step", "n_cores", "scan_rate", "sampling_rate", "onset_rate"} \X {1000, 5000}),
            onset |-> {"min_onset_value"} \X {9}, picker |-> {"pick_threshold", "mad_pick_threshold"} \X {3},
            amplitude |-> {}, magnitude |-> {}, archive |-> {}, grid |-> {}]
TextSets == [trigger |-> {"threshold_method"} \X {"static", "mad", "dynamic", "other"},
             scan |-> {}, onset |-> ({"position"} \X {"classic", "centred", "x"}) \cup ({"onset_centred"} \X Bool)
,
             picker |-> {"threshold_method"} \X {"MAD", "percentile", "x"},
             amplitude |-> {"noise_measure"} \X {"STD", "x"}, magnitude |-> {},
             archive |-> {"path_structure"} \X ({"SeisComp3", "x", "YEAR_JD/STATION*"} \X {"*", "B*"}), grid |-> {}]
Init == /\ kind \in Kinds
        /\ \E n \in NumArgs[kind], t \in TextArgs[kind], l \in ListArgs[kind] :
             LET r == New(kind, [n |-> (IF kind = "onset" /\ "sampling_rate" \in DOMAIN t
                                        THEN n @@ [sampling_rate |-> 20000] ELSE n), t |-> t, l |-> l]) IN obj = r.s /\ out = r.out
        /\ steps = 0 /\ before = obj
Next == /\ steps < N /\ obj # None
        /\ steps' = steps + 1 /\ kind' = kind /\ before' = obj
        /\ \E q \in {<<"n", y>> : y \in NumSets[kind]} \cup {<<"t", y>> : y \in TextSets[kind]} \cup {<<"l", y>> : y \in ListSets[kind]} :
             LET r == Set(kind, obj, q[2][1], q[2][2]) IN obj' = r.s /\ out' = r.out
Spec == Init /\ [][Next]_vars

Made == obj # None
RefusedLeaves == out # "ok" => obj = before
IntervalHolds == (Made /\ kind = "trigger" /\ Use(kind, obj) = "ok") =>
                   obj.n.min_event_interval >= 2 * obj.n.marginal_window
MethodHolds == (Made /\ kind = "trigger") => obj.t.threshold_method \in TriggerMethods
UsedIsKnown == (Made /\ Use(kind, obj) = "ok") =>
  /\ kind = "onset" => obj.t.position \in Positions
  /\ kind = "picker" => obj.t.threshold_method \in PickMethods
  /\ kind = "archive" => obj.t.format # "None"
SameNames == Made => \A x \in DOMAIN Aliases[kind] : Read(kind, obj, x) = Read(kind, obj, Aliases[kind][x])
Complete == Made => /\ DOMAIN Defaults[kind].n \subseteq DOMAIN obj.n
                    /\ DOMAIN Defaults[kind].t \subseteq DOMAIN obj.t
                    /\ DOMAIN Defaults[kind].l \subseteq DOMAIN obj.l
GridHolds == (Made /\ kind = "grid") => /\ Len(obj.l.node_spacing) = 3 /\ GoodSpacing(obj.l.node_spacing)
                                        /\ GoodCount(obj.l.node_count)
BelowNyquist == (Made /\ kind = "onset" /\ Use(kind, obj) = "ok") =>
                  2 * obj.l.P_filter[2] < obj.n.sampling_rate /\ 2 * obj.l.S_filter[2] < obj.n.sampling_rate
RateFollows == (Made /\ kind = "scan") => Read(kind, obj, "scan_rate") = obj.n.onset_rate
(* writing back what an earlier name reads as changes nothing *)
WriteBack == Made => \A x \in DOMAIN Aliases[kind] \cup (IF kind = "onset" THEN {"onset_centred"} ELSE {}) :
  LET v == Read(kind, obj, x) r == Set(kind, obj, x, v)
  IN \/ r.out # "ok" \/ r.s = obj
     \/ kind = "onset" /\ x = "onset_centred" /\ obj.t.position \notin Positions
=============================================================================
