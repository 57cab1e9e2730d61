------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Objects with settings: what creating one with some arguments, assigning  *)
(* to one of its attributes and using it does.                               *)
(*                                                                           *)
(* An object's state s has s.n (numbers, in thousandths), s.t (texts, as      *)
(* Python writes the value) and s.l (lists of numbers, in thousandths).        *)
(* Arguments a are likewise three functions, of the names given. Every        *)
(* operation has an outcome: "ok" or the error raised, with the state after   *)
(* it.                                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Or(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
Only(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
None == [n |-> <<>>, t |-> <<>>, l |-> <<>>]
Res(out, s) == [out |-> out, s |-> s]

(* The documented defaults. *)
Defaults ==
 [trigger |-> [n |-> [marginal_window |-> 2000, min_event_interval |-> 4000, static_threshold |-> 1500,
                      mad_window_length |-> 3600000, mad_multiplier |-> 8000, median_window_length |-> 3600000,
                      median_multiplier |-> 1200, pad |-> 120000, smoothing_kernel_sigma |-> 200,
                      smoothing_kernel_width |-> 4000],
               t |-> [threshold_method |-> "static", normalise_coalescence |-> "False", smooth_coa |-> "False",
                      plot_trigger_summary |-> "True", plot_all_stns |-> "True",
                      write_event_time_windows |-> "False"],
               l |-> <<>>],
  scan |-> [n |-> [timestep |-> 120000, marginal_window |-> 2000, threads |-> 1000],
            t |-> [plot_event_summary |-> "True", plot_all_stns |-> "True", plot_event_video |-> "False",
                   continuous_scanmseed_write |-> "False", write_cut_waveforms |-> "False",
                   write_real_waveforms |-> "False", write_wa_waveforms |-> "False",
                   real_waveform_units |-> "displacement", wa_waveform_units |-> "displacement",
                   cut_waveform_format |-> "MSEED", write_marginal_coalescence |-> "False",
                   write_coalescence |-> "False", pre_cut |-> "None", post_cut |-> "None"],
            l |-> <<>>],
  onset |-> [n |-> [min_onset_value |-> 400],
             t |-> [position |-> "classic", signal_transform |-> "energy", use_python_backend |-> "False",
                    all_channels |-> "False", allow_gaps |-> "False", full_timespan |-> "True"],
             l |-> [P_filter |-> <<2000, 16000, 2000>>, S_filter |-> <<2000, 16000, 2000>>,
                    P_window |-> <<200, 1000>>, S_window |-> <<200, 1000>>]],
  picker |-> [n |-> [percentile_pick_threshold |-> 1000, mad_pick_threshold |-> 8000],
              t |-> [threshold_method |-> "MAD", plot_picks |-> "False", write_seed_ids |-> "False",
                     fraction_tt |-> "None"],
              l |-> <<>>],
  amplitude |-> [n |-> [signal_window |-> 0, noise_window |-> 5000, prominence_multiplier |-> 0,
                        filter_corners |-> 4000],
                 t |-> [noise_measure |-> "RMS", loc_method |-> "spline", highpass_filter |-> "False",
                        bandpass_filter |-> "False"],
                 l |-> <<>>],
  magnitude |-> [n |-> [amp_multiplier |-> 1000, noise_filter |-> 1000],
                 t |-> [use_hyp_dist |-> "False", amp_feature |-> "S_amp", weighted_mean |-> "False",
                        trace_filter |-> "None", station_filter |-> "None", dist_filter |-> "False",
                        pick_filter |-> "False", r2_only_used |-> "True"],
                 l |-> <<>>],
  archive |-> [n |-> [water_level |-> 60000],
               t |-> [format |-> "None", read_all_stations |-> "False", resample |-> "False",
                      upfactor |-> "None", interpolate |-> "False", pre_filt |-> "None",
                      remove_full_response |-> "False"],
               l |-> <<>>],
  grid |-> [n |-> <<>>, t |-> <<>>, l |-> <<>>]]
Kinds == DOMAIN Defaults

(* Earlier names of settings. *)
Aliases == [trigger |-> [minimum_repeat |-> "min_event_interval"],
            scan |-> [time_step |-> "timestep", n_cores |-> "threads"],
            onset |-> [p_bp_filter |-> "P_filter", s_bp_filter |-> "S_filter", p_onset_win |-> "P_window",
                       s_onset_win |-> "S_window"],
            picker |-> <<>>, amplitude |-> <<>>, magnitude |-> <<>>, archive |-> <<>>,
            grid |-> [cell_count |-> "node_count", cell_size |-> "node_spacing"]]
Named(kind, x) == IF x \in DOMAIN Aliases[kind] THEN Aliases[kind][x] ELSE x

(* arguments under their present names; the earlier name wins if both are given *)
Resolve(kind, f) ==
  LET al == Aliases[kind]
      old == DOMAIN f \cap DOMAIN al
      new == {al[x] : x \in old}
  IN [y \in (DOMAIN f \ old) \cup new |->
        IF y \in new THEN f[CHOOSE x \in old : al[x] = y] ELSE f[y]]

TriggerMethods == {"static", "mad", "median_ratio"}
Positions == {"classic", "centred"}
Transforms == {"energy", "abs", "env", "env_squared"}
PickMethods == {"MAD", "percentile"}
LocMethods == {"spline", "gaussian", "covariance"}
NoiseMeasures == {"RMS", "STD", "ENV"}
Max(a, b) == IF a > b THEN a ELSE b
FormatOf(x, ch) ==
  CASE x = "SeisComp3" -> "{year}/*/{station}/" \o ch \o "/*.{station}.*.*.D.{year}.{jday:03d}"
    [] x = "YEAR/JD/*_STATION_*" -> "{year}/{jday:03d}/*_{station}_*"
    [] x = "YEAR/JD/STATION" -> "{year}/{jday:03d}/{station}*"
    [] x = "STATION.YEAR.JULIANDAY" -> "*{station}.*.{year}.{jday:03d}"
    [] x = "/STATION/STATION.YearMonthDay" -> "{station}/{station}.{year}{month:02d}{day:02d}"
    [] x = "YEAR_JD/STATION*" -> "{year}_{jday:03d}/{station}*"
    [] x = "YEAR_JD/STATION_*" -> "{year}_{jday:03d}/{station}_*"
    [] OTHER -> ""
Centred(text) == IF text = "True" THEN "centred" ELSE "classic"
(* the spacing of a grid: one number for all directions, or three; not less than one mm *)
Spacing(v) == IF Len(v) = 1 THEN <<v[1], v[1], v[1]>> ELSE v
GoodSpacing(v) == Len(v) \in {1, 3} /\ \A i \in 1..Len(v) : v[i] > 0
(* numbers of nodes are whole *)
Whole(v) == [i \in 1..Len(v) |-> 1000 * (v[i] \div 1000)]
GoodCount(v) == \A i \in 1..Len(v) : v[i] >= 1000
(* nodes of a grid of that size (mm): enough to reach its end *)
Nodes(size, sp) == [i \in 1..3 |-> 1000 * (((size[i] + sp[i] - 1) \div sp[i]) + 1)]

Channels(a) == IF "channels" \in DOMAIN a.t THEN a.t.channels ELSE "*"

(* Creating an object. *)
New(kind, a) ==
  LET n == Or(Resolve(kind, a.n), Defaults[kind].n)
      t == Or(Resolve(kind, a.t), Defaults[kind].t)
      q == Or(Resolve(kind, a.l), Defaults[kind].l)
      s == [n |-> n, t |-> t, l |-> q]
      has(x) == x \in DOMAIN a.t \cup DOMAIN a.n \cup DOMAIN a.l
  IN CASE kind = "trigger" ->
            IF t.threshold_method \notin TriggerMethods \cup {"dynamic"}
            THEN Res("InvalidTriggerThresholdMethodException", None)
            ELSE IF n.min_event_interval < 2 * n.marginal_window THEN Res("ValueError", None)
            ELSE Res("ok", [s EXCEPT !.t.threshold_method = IF @ = "dynamic" THEN "mad" ELSE @])
       [] kind = "scan" ->
            IF a.t.onset # "onset" THEN Res("OnsetTypeError", None)
            ELSE IF has("picker") /\ a.t.picker # "picker" THEN Res("PickerTypeError", None)
            ELSE IF has("mags") /\ a.t.mags # "mags" THEN Res("MagsTypeError", None)
            ELSE Res("ok", [n |-> Only(n, DOMAIN Defaults.scan.n) @@ [onset_rate |-> a.n.onset_rate],
                            t |-> Only(t, DOMAIN Defaults.scan.t), l |-> q])
       [] kind = "onset" ->
            IF ~has("sampling_rate") THEN Res("ValueError", None)
            ELSE IF n.min_onset_value < 10 THEN Res("ValueError", None)
            ELSE Res("ok", [n |-> n, l |-> q,
                   t |-> [Only(t, DOMAIN Defaults.onset.t) EXCEPT !.position =
                     IF t.class # "STALTAOnset"
                     THEN (IF t.class = "CentredSTALTAOnset" THEN "centred" ELSE "classic")
                     ELSE IF has("onset_centred") THEN Centred(a.t.onset_centred) ELSE @]])
       [] kind = "picker" ->
            IF t.threshold_method \notin PickMethods THEN Res("InvalidPickThresholdMethodException", None)
            ELSE IF has("pick_threshold") THEN Res("AttributeError", None)
            ELSE Res("ok", s)
       [] kind = "amplitude" ->
            IF \/ t.highpass_filter = "True" /\ ~has("highpass_freq")
               \/ t.bandpass_filter = "True" /\ ~(has("bandpass_lowcut") /\ has("bandpass_highcut"))
               \/ t.highpass_filter = "True" /\ t.bandpass_filter = "True"
               \/ has("water_level") \/ has("pre_filt") \/ has("remove_full_response")
            THEN Res("AttributeError", None) ELSE Res("ok", s)
       [] kind = "magnitude" ->
            IF ~has("A0") THEN Res("TypeError", None) ELSE Res("ok", s)
       [] kind = "archive" ->
            IF has("archive_format")
            THEN (IF FormatOf(a.t.archive_format, Channels(a)) = ""
                  THEN Res("ArchivePathStructureError", None)
                  ELSE Res("ok", [n |-> n, l |-> q, t |-> [Only(t, DOMAIN Defaults.archive.t) EXCEPT
                                              !.format = FormatOf(a.t.archive_format, Channels(a))]]))
            ELSE Res("ok", s)
       [] kind = "grid" ->
            IF ~GoodSpacing(a.l.node_spacing) THEN Res("AssertionError", None)
            ELSE Res("ok", [n |-> n, t |-> t,
                            l |-> [node_spacing |-> Spacing(a.l.node_spacing),
                                   node_count |-> Nodes(a.l.size, Spacing(a.l.node_spacing))]])

(* Assigning to an attribute (or calling path_structure). *)
Put(s, x, v) == CASE x \in DOMAIN s.n -> [s EXCEPT !.n[x] = v]
                  [] x \in DOMAIN s.l -> [s EXCEPT !.l[x] = v]
                  [] OTHER -> [s EXCEPT !.t[x] = v]
Set(kind, s, name, v) ==
  LET x == Named(kind, name)
  IN CASE kind = "trigger" /\ x = "threshold_method" ->
            IF v = "dynamic" THEN Res("ok", Put(s, x, "mad"))
            ELSE IF v \in TriggerMethods THEN Res("ok", Put(s, x, v))
            ELSE Res("InvalidTriggerThresholdMethodException", s)
       [] kind = "trigger" /\ x = "min_event_interval" ->
            IF v < 2 * s.n.marginal_window THEN Res("ValueError", s) ELSE Res("ok", Put(s, x, v))
       [] kind = "onset" /\ x = "onset_centred" -> Res("ok", Put(s, "position", Centred(v)))
       [] kind = "picker" /\ x = "pick_threshold" -> Res("AttributeError", s)
       [] kind = "scan" /\ x \in {"scan_rate", "sampling_rate"} -> Res("ok", s)   \* not configurable
       [] kind = "archive" /\ x = "path_structure" ->
            IF FormatOf(v[1], v[2]) = "" THEN Res("ArchivePathStructureError", s)
            ELSE Res("ok", Put(s, "format", FormatOf(v[1], v[2])))
       [] kind = "grid" /\ x = "node_spacing" ->
            IF GoodSpacing(v) THEN Res("ok", Put(s, x, Spacing(v))) ELSE Res("AssertionError", s)
       [] kind = "grid" /\ x = "node_count" ->
            IF GoodCount(v) THEN Res("ok", Put(s, x, Whole(v))) ELSE Res("AssertionError", s)
       [] OTHER -> Res("ok", Put(s, x, v))

(* Using the object with its settings: "ok", an error by name, or "error" for any. *)
Use(kind, s) ==
  CASE kind = "trigger" ->
         IF s.n.min_event_interval < 2 * s.n.marginal_window THEN "ValueError" ELSE "ok"
    [] kind = "onset" ->
         IF 2 * Max(s.l.P_filter[2], s.l.S_filter[2]) >= s.n.sampling_rate THEN "NyquistException"
         ELSE IF s.t.position \notin Positions \/ s.t.signal_transform \notin Transforms THEN "error"
         ELSE "ok"
    [] kind = "picker" -> IF s.t.threshold_method \notin PickMethods THEN "error" ELSE "ok"
    [] kind = "amplitude" -> IF s.t.loc_method \notin LocMethods THEN "error"
                             ELSE IF s.t.noise_measure \notin NoiseMeasures THEN "NotImplementedError"
                             ELSE "ok"
    [] kind = "magnitude" -> IF s.t.amp_feature \notin {"P_amp", "S_amp"} THEN "error" ELSE "ok"
    [] kind = "archive" -> IF s.t.format = "None" THEN "ArchiveFormatException" ELSE "ok"
    [] OTHER -> "ok"

(* What an attribute reads as, by present and earlier name. *)
Read(kind, s, name) ==
  LET x == Named(kind, name)
  IN IF kind = "onset" /\ x = "onset_centred" THEN (IF s.t.position = "centred" THEN "True" ELSE "False")
     ELSE IF kind = "scan" /\ x \in {"scan_rate", "sampling_rate"} THEN s.n.onset_rate
     ELSE IF kind = "onset" /\ x = "pre_pad"
     THEN Max(s.l.P_window[2], s.l.S_window[2]) + 3 * Max(s.l.P_window[1], s.l.S_window[1])
     ELSE IF x \in DOMAIN s.n THEN s.n[x] ELSE IF x \in DOMAIN s.l THEN s.l[x] ELSE s.t[x]

(* Asking for a span of time: q.stage, q.given (a subset of "start", "end", "file"), and  *)
(* whether the start is after the end; min_event_interval is judged when triggering.      *)
Call(q, s) ==
  CASE q.stage = "detect" -> IF q.after THEN {"TimeSpanException"} ELSE {"ok"}
    [] q.stage = "trigger" ->
         LET bad == (IF q.after THEN {"TimeSpanException"} ELSE {})
                    \cup (IF Use("trigger", s) # "ok" THEN {"ValueError"} ELSE {})
         IN IF bad = {} THEN {"ok"} ELSE bad
    [] q.stage = "locate" ->
         IF q.given = {} \/ ("start" \in q.given) # ("end" \in q.given) THEN {"RuntimeError"}
         ELSE IF "start" \in q.given /\ q.after THEN {"TimeSpanException"} ELSE {"ok"}

(* Tables: the columns a file must have, and what computing one needs. *)
StationColumns == {"Latitude", "Longitude", "Elevation", "Name"}
ReadStations(cols) == IF StationColumns \subseteq cols THEN "ok" ELSE "StationFileHeaderException"
ReadVmodel(cols) == IF "Depth" \in cols THEN "ok" ELSE "InvalidVelocityModelHeader"
(* q.args: "v" and "vmod" arguments given; q.cols: columns of the velocity model;  *)
(* q.outside: a station lies outside the grid. The outcomes there may be.          *)
Compute(q) ==
  CASE q.method = "homogeneous" ->
         IF \A p \in q.phases : p \in q.args THEN {"ok"} ELSE {"TypeError"}
    [] q.method = "1dfmm" ->
         IF "mod" \notin q.args THEN {"TypeError"}
         ELSE LET bad == (IF q.phases \subseteq q.cols THEN {} ELSE {"InvalidVelocityModelHeader"})
                         \cup (IF q.outside THEN {"ValueError"} ELSE {})
              IN IF bad = {} THEN {"ok"} ELSE bad
    [] q.method \in {"1dnlloc", "1dsweep"} -> {"TypeError"}    \* asked for without a model only
    [] q.method = "3dfmm" -> {"NotImplementedError"}
    [] OTHER -> {"ValueError"}
(* Migrating onset functions of phases the lookup table does not have. *)
Scan(phases, table) == IF phases \subseteq table THEN "ok" ELSE "LUTPhasesException"
=============================================================================
