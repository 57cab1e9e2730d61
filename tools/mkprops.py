#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for property texts)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, state=(), mech=(), obs=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(obs), hook_needed=None)))


prop("Q01", "Migration stacks every onset at its own traveltime, for every node and time",
     "For every grid node and every sample of the scanned window, the migrated coalescence is the geometric mean over the available onset functions of the value each has at that sample plus that station-phase's traveltime to that node (in samples). Values below the migration floor are raised to the floor before averaging, and a station-phase that is not available contributes nothing. The result depends neither on the number of threads nor on memory contents outside the stated windows.",
     ["inputs", "configurations", "schedules"],
     "All onset arrays, traveltime tables, pre/post pads, numbers of available onsets, grid sizes and thread counts.",
     "The stable tests never call migrate; the benchmark test needs data that is not available and samples one network, one thread count.",
     ["quakemigrate/core/lib.py", "quakemigrate/core/src/migratelib.c", "quakemigrate/lut/lut.py", "quakemigrate/signal/scan.py"],
     [("map4d", "coalescence at (i,j,k,t)", "core/lib.py migrate")],
     [("OpenMP loop over nodes", "migratelib.c migrate"), ("traveltime/onset ordering by availability", "lut.py serve_traveltimes")],
     ["quakemigrate.core.migrate return value", "LUT.serve_traveltimes return value", "coalescence maps and .scanmseed from QuakeScan"])

prop("Q02", "The peak finder returns the true maximum and its node at every sample",
     "For every sample of a 4-D coalescence map the reported peak is the largest value over all nodes, the reported node is one at which that value is attained (the lowest-numbered such node), and the normalised peak is the peak divided by the mean over all nodes. This holds for every grid size and every number of threads.",
     ["inputs", "configurations", "schedules"],
     "All maps (including ties and peaks at the first or last node), sizes and thread counts.",
     "No stable test calls find_max_coa; threads cannot be settled by a single run.",
     ["quakemigrate/core/lib.py", "quakemigrate/core/src/migratelib.c"],
     [("max_coa, max_norm_coa, max_coa_idx", "per-sample peak outputs", "migratelib.c find_max_coa")],
     [("per-sample scan in a parallel loop", "migratelib.c find_max_coa")],
     ["quakemigrate.core.find_max_coa return values"])

prop("Q03", "STA/LTA transforms use exactly the documented windows and edges",
     "At every sample the overlapping (classic) transform is the mean of the signal over the short window ending at that sample divided by the mean over the long window ending at that sample; the centred transform is the mean over the short window starting just after that sample divided by the mean over the long window ending at that sample. Samples for which a window does not fit in the data carry the neutral value defined for them, and a zero long-term average never produces NaN or infinity. The compiled and array implementations of the same position agree wherever both are defined.",
     ["inputs", "configurations"],
     "All signals, short/long window lengths and positions.",
     "test_onsets_simple checks three window combinations on one signal against the same code's stored output.",
     ["quakemigrate/core/lib.py", "quakemigrate/core/src/onsetlib.c", "quakemigrate/signal/onsets/stalta.py"],
     [("running sums", "short- and long-window sums", "onsetlib.c")],
     [("sliding window sums", "onsetlib.c overlapping_sta_lta, centred_sta_lta, recursive_sta_lta")],
     ["quakemigrate.core.overlapping_sta_lta / centred_sta_lta / recursive_sta_lta"])

prop("Q04", "The onset set is exactly the station-phases with complete usable data",
     "For any waveform data, an onset function is delivered for a station and phase if and only if that phase's required components are present and meet the configured gap, full-span, all-channels and flatline requirements; the reported availability says 1 for exactly those station-phases and 0 for every other station-phase requested. The order of the onset functions is the order of the available entries, each is built only from that station's own components for that phase, and no onset value is below the floor used in stacking. If no station-phase is available an explicit data-availability error is raised instead of an empty stack.",
     ["inputs", "configurations", "fault_sequences"],
     "All combinations of missing, gappy, flat, short, or duplicated channels over stations, phases, channel maps and onset options.",
     "The onset test feeds the raw transform only; no stable test calls calculate_onsets on incomplete data.",
     ["quakemigrate/signal/onsets/stalta.py", "quakemigrate/signal/onsets/base.py", "quakemigrate/io/data.py"],
     [("availability", "dict station_phase -> 0/1", "stalta.py calculate_onsets")],
     [("check_availability per phase/station", "io/data.py"), ("component selection by channel map", "stalta.py")],
     ["STALTAOnset.calculate_onsets return values"])

prop("Q05", "Detect covers the requested span sample by sample, whatever the timestep",
     "A completed detect run over [start, end) leaves, for every sample of that span, exactly one peak-coalescence record (peak, normalised peak and coordinates) at that sample's time, computed from data at that time: there are no gaps, overlaps or shifts at timestep boundaries. The value recorded for a given time does not depend on the timestep used, nor on where the run started.",
     ["inputs", "configurations", "histories"],
     "All start/end times, timesteps, sampling rates and pads, for onset functions that depend only on the data at their time.",
     "No stable test runs detect.",
     ["quakemigrate/signal/scan.py", "quakemigrate/io/scanmseed.py", "quakemigrate/signal/onsets/base.py"],
     [("coalescence stream", "records accumulated by the run", "scanmseed.py ScanmSEED")],
     [("timestep windows with pre/post pad", "scan.py _continuous_compute"), ("trim of pads", "core migrate")],
     ["detect/scanmseed day files"])

prop("Q06", "Timesteps without usable data are zero-filled, flagged, and isolated",
     "When a timestep's data are missing, gappy or unusable, detect records zeros for every sample of that timestep, marks every station-phase unavailable in the availability table for it, and goes on to the next timestep. All other timesteps have the same records and availability as if no timestep had failed, and the availability table has exactly one row per timestep, labelled with its start time.",
     ["fault_sequences", "inputs"],
     "Every pattern of failing timesteps (no data, gap, no usable onset) over a run.",
     "No stable test runs detect or injects a failure.",
     ["quakemigrate/signal/scan.py", "quakemigrate/io/scanmseed.py", "quakemigrate/io/availability.py"],
     [("availability", "row per timestep", "scan.py")],
     [("exception handling per timestep", "scan.py _continuous_compute"), ("empty record", "scanmseed.py ScanmSEED.empty")],
     ["detect/scanmseed day files", "detect/availability day files"])

prop("Q07", "Coalescence day files partition the output by UTC day, at every write point",
     "Each coalescence day file holds exactly the samples of its UTC day that have been computed, in order and without duplicates, however the timesteps straddle midnight. At the end of a run every computed sample is in its day's file; with continuous writing that is true after every timestep, so stopping between any two timesteps loses nothing already computed.",
     ["histories", "crash_points", "configurations"],
     "All sequences of appended/empty timesteps, step lengths and start offsets relative to midnight, continuous writing on or off, stop after any timestep.",
     "No stable test exercises the coalescence writer.",
     ["quakemigrate/io/scanmseed.py", "quakemigrate/signal/scan.py"],
     [("stream", "samples not yet flushed/closed", "scanmseed.py"), ("written", "whether stream is on disk", "scanmseed.py")],
     [("day-boundary split and flush", "scanmseed.py append/write")],
     ["detect/scanmseed day files after each step"])

prop("Q08", "Stored coalescence values survive the integer encoding and windowed read-back",
     "Writing coalescence values and coordinates to the day files and reading them back returns the same values within the stored precision (1e-5 for coalescence, 1e-6 degrees, 1 millimetre for depth in kilometre or metre grids), with values above the representable maximum clipped to it and never wrapped. Reading a window returns every stored sample in the padded window, at its time, across day files; a stretch for which nothing is stored is returned as zeros and hides none of the samples after it, and samples at another rate in the padding hide none of the requested period.",
     ["inputs", "histories"],
     "All value ranges, units, read windows and day-file layouts (missing or partial days).",
     "test_smooth_coa reads one canned array; no stable test round-trips a file.",
     ["quakemigrate/io/scanmseed.py"],
     [("int32 scaled samples", "value*factor", "scanmseed.py")],
     [("scale factors and clipping", "scanmseed.py append / read_scanmseed"), ("merge of day files", "scanmseed.py read_scanmseed")],
     ["read_scanmseed return value"])

prop("Q09", "Triggered events are exactly the merged threshold crossings",
     "Every maximal run of samples at or above the threshold gives one candidate at the time of its largest coalescence, with the coordinates and coalescence of that sample and an event window reaching at least the minimum event interval from the peak and covering the run. Candidates whose windows come within a marginal window of a neighbour's peak are merged (transitively) into one event, which takes time, value and location from its highest-valued member and the union of the windows. No above-threshold sample is left without an event and no event exists without one.",
     ["inputs", "configurations"],
     "All coalescence series, thresholds, marginal windows and minimum event intervals, triggering on raw or normalised coalescence.",
     "test_trigger_thresholds compares three threshold traces on one canned day; nothing tests candidate grouping or merging.",
     ["quakemigrate/signal/trigger.py"],
     [("candidate_events / refined_events", "candidates and merged events", "trigger.py")],
     [("run grouping", "trigger.py _identify_candidates"), ("merge by windows", "trigger.py _refine_candidates")],
     ["TriggeredEvents csv"])

prop("Q10", "Events triggered in a batch are separated and uniquely named",
     "Any two events triggered from the same continuous stretch of coalescence have peak times further apart than the minimum event interval, are listed in time order, and have distinct identifiers, each of which spells the event's trigger time to the millisecond. Merging never moves an event's time outside its own window.",
     ["inputs", "configurations"],
     "All coalescence series, thresholds, marginal windows and minimum event intervals.",
     "A global separation invariant over all series; the tests sample one day and no merging.",
     ["quakemigrate/signal/trigger.py", "quakemigrate/io/triggered_events.py"],
     [("EventID, CoaTime, MinTime, MaxTime", "event rows", "trigger.py")],
     [("candidate windows", "trigger.py _identify_candidates"), ("merge chain", "trigger.py _refine_candidates"), ("uid format", "trigger.py")],
     ["TriggeredEvents csv"])

prop("Q11", "Trigger thresholds follow the selected method chunk by chunk",
     "With the static method the threshold is the given constant everywhere. With the MAD method each successive window of the given length has threshold median + multiplier x (scaled) median absolute deviation of that window's own samples, and with the median-ratio method multiplier x that window's own median; a final partial window uses only its own samples. Coalescence exactly at the threshold triggers.",
     ["inputs", "configurations"],
     "All series, window lengths (including longer than or not dividing the data), multipliers and methods.",
     "The threshold test compares to stored numbers for one series and one window per method.",
     ["quakemigrate/signal/trigger.py", "quakemigrate/util.py"],
     [("threshold", "per-sample threshold", "trigger.py _get_threshold")],
     [("chunking and broadcast", "trigger.py chunks2trace, _get_threshold"), ("MAD", "util.py calculate_mad")],
     ["which events appear in TriggeredEvents csv"])

prop("Q12", "Multi-day triggering loses and duplicates nothing at day boundaries",
     "Triggering over several days processes each UTC day once and assigns each event to the file of the day containing its trigger time, including peaks at the very first and very last sample of a day; no event is in two files or in none. Data from the pad on either side of midnight is used to decide an event near midnight, so the events found for a day are the same whether that day is triggered alone or as part of a longer span, also where there is no coalescence for a while around midnight.",
     ["inputs", "histories", "configurations"],
     "All start/end times, event times relative to midnight, pads and numbers of days.",
     "No stable test calls Trigger.trigger.",
     ["quakemigrate/signal/trigger.py", "quakemigrate/io/scanmseed.py", "quakemigrate/io/triggered_events.py"],
     [("batchstart/batchend", "day batch bounds", "trigger.py trigger")],
     [("day batching and end adjustment", "trigger.py trigger/_trigger_batch"), ("padded read", "scanmseed.py read_scanmseed")],
     ["TriggeredEvents csv per day"])

prop("Q13", "The triggered-event file is exactly this run's selection of events",
     "After triggering a day, its event file lists exactly the events whose trigger time is in the requested span and, if a region is given, whose coordinates lie inside it (bounds included), with the documented columns once each; the event windows are included exactly when asked for. What the file contains depends only on this trigger call and the coalescence on disk, not on earlier calls, other trigger objects or files left from earlier runs, and a day with no event leaves no stale event behind.",
     ["histories", "inputs", "configurations"],
     "All call histories in one process and on one run directory, regions, spans and options.",
     "Needs sequences of trigger calls; tests make at most one in-memory call.",
     ["quakemigrate/signal/trigger.py", "quakemigrate/io/triggered_events.py"],
     [("OUTPUT_COLS", "columns written", "triggered_events.py")],
     [("time and region filter", "trigger.py _filter_events"), ("csv write", "triggered_events.py write_triggered_events")],
     ["TriggeredEvents csv"])

prop("Q14", "Locate processes exactly the triggered events in the requested window",
     "Given a start and end time, locate considers every triggered event in the run's event files whose time lies in the window (end excluded only if it is midnight), each once, whichever day files they are in; given a trigger file it considers exactly the events in that file. Missing event files, an inverted window, or an incomplete pair of times are reported by the documented errors rather than silently locating something else.",
     ["inputs", "histories"],
     "All windows, event times, missing day files and argument combinations.",
     "No stable test reads triggered events.",
     ["quakemigrate/io/triggered_events.py", "quakemigrate/signal/scan.py"],
     [("events dataframe", "events to locate", "triggered_events.py read_triggered_events")],
     [("day-file enumeration and time filter", "triggered_events.py read_triggered_events"), ("argument checks", "scan.py locate")],
     ["read_triggered_events return value", "set of .event files after locate"])

prop("Q15", "Locating one event never affects another; unusable events are skipped cleanly",
     "Locate writes one event file and one pick file for exactly those selected events whose data are available and whose peak coalescence falls strictly inside the marginal window around the trigger time. An event without usable data, or whose peak falls outside, leaves no output and does not stop or change the others: every event's output is the same as if it were located alone, in any order.",
     ["fault_sequences", "histories", "inputs"],
     "All sets and orders of events and patterns of missing data or out-of-window peaks.",
     "No stable test runs locate; independence over all orders cannot be sampled by one run.",
     ["quakemigrate/signal/scan.py", "quakemigrate/io/event.py"],
     [("event", "per-event container", "io/event.py Event")],
     [("per-event try/continue", "scan.py _locate_events"), ("marginal window test", "event.py in_marginal_window")],
     ["locate/<sub>/events/*.event", "locate/<sub>/picks/*.picks"])

prop("Q16", "A located event's reported time and coalescence are its map's true peak",
     "For every located event the origin time is the sample of maximum peak coalescence in the scanned window, the reported coalescence and normalised coalescence are the values at that sample, and the trigger-stage and decimated-stage values are passed on unchanged. The coalescence map written for the event and the location are computed from the samples of the marginal window around that origin time, and the gridded location is the node where the time-marginalised map is largest. The event file repeats these values at its documented precision.",
     ["inputs", "configurations"],
     "All coalescence maps, marginal windows, sampling rates and trigger-time offsets from the sample grid.",
     "No stable test runs locate.",
     ["quakemigrate/signal/scan.py", "quakemigrate/io/event.py", "quakemigrate/io/coalescence.py"],
     [("coa_data, map4d, otime", "event's coalescence", "io/event.py")],
     [("trim to marginal window", "event.py trim2window"), ("spline / gridded location", "scan.py _splineloc")],
     [".event file", "coalescence .npy maps"])

prop("Q17", "Detect and locate agree on coalescence for the same onsets and grid",
     "For the same lookup table and onset functions, the peak coalescence trace that locate computes around a trigger time equals, sample for sample, the trace that detect recorded for those times, and both read waveform data padded enough that every station-phase's traveltime is inside the data. Consequently an event triggered at the detect peak is located at that same sample and node.",
     ["inputs", "configurations"],
     "All grids, traveltimes (up to the maximum in the table), marginal windows, timesteps and sampling rates.",
     "Relates two stages that no stable test runs.",
     ["quakemigrate/signal/scan.py", "quakemigrate/signal/onsets/base.py", "quakemigrate/io/event.py", "quakemigrate/lut/lut.py"],
     [("pre_pad, post_pad", "window padding", "onsets/base.py")],
     [("pads from onset window and max traveltime", "onsets pad()"), ("times of the locate window", "event.py mw_times")],
     ["detect .scanmseed vs .event and coalescence maps"])

prop("Q18", "Archive reads return exactly the requested data, station by station",
     "Reading a time window returns every sample archived for the requested stations inside the window, from every day file that overlaps it (including across midnight and year boundaries) and nothing from other stations or outside the window; raw waveforms additionally cover the requested extra pads. Overlapping or split records are joined without overwriting or inventing samples, and a window for which no file or no sample exists raises the documented exception.",
     ["inputs", "configurations", "histories"],
     "All archive layouts, station subsets, windows, overlap/gap patterns and pads.",
     "test_merge_stream covers one merge; no stable test reads an archive.",
     ["quakemigrate/io/data.py", "quakemigrate/util.py"],
     [("raw_waveforms, waveforms", "data read", "io/data.py WaveformData")],
     [("file globbing per day/station", "data.py Archive._load_from_path"), ("merge", "util.py merge_stream"), ("trim", "data.py read_waveform_data")],
     ["Archive.read_waveform_data return value and exceptions"])

prop("Q19", "Data availability decisions follow the configured requirements",
     "A station is reported available for a phase exactly when, after the configured gap, full-timespan, sampling-rate, flatline and all-channels requirements are applied, at least one (or all) of the required components remains; and the returned availability per component lists every component present once with the correct value. Tightening a requirement never makes data available that were not available before, and data that meet every requirement exactly (to the sample) are available.",
     ["inputs", "configurations"],
     "All component sets, gaps, coverages, sampling rates, flat traces and option combinations.",
     "No stable test calls check_availability.",
     ["quakemigrate/io/data.py"],
     [("availability", "component -> 0/1", "data.py check_availability")],
     [("sequential checks", "data.py WaveformData.check_availability")],
     ["WaveformData.check_availability return value"])

prop("Q20", "Resampling brings every trace to the target rate on the shared sample grid",
     "After homogenising, every trace that can be brought to the target sampling rate by the permitted decimation/upsampling is at exactly that rate with samples on the common grid (whole samples from midnight when shifting is requested), and traces that cannot be are reported in the log and never contribute to an onset function. Data already at the target rate and on the grid are returned unchanged, and the original raw waveforms are never modified.",
     ["inputs", "configurations"],
     "All input rates, target rates, resampling flags, upfactors and sub-sample offsets.",
     "No stable test calls resample or shift_to_sample.",
     ["quakemigrate/util.py", "quakemigrate/io/data.py"],
     [("waveforms", "processed stream", "util.py resample")],
     [("decimate/upsample decision", "util.py resample"), ("sub-sample shift", "util.py shift_to_sample")],
     ["util.resample, util.shift_to_sample, Archive.read_waveform_data"])

prop("Q21", "Grid indices, coordinates and decimated grids stay mutually consistent",
     "Converting any node index to grid or geographic coordinates and back returns that node, flattened and unflattened indices agree with the layout of traveltime tables, and the reported corners, node count, spacing and extents describe the same grid. After decimation by any allowed factors every remaining node keeps its coordinates' own traveltimes: the traveltime stored for a node is the traveltime to the place that node's coordinates name.",
     ["inputs", "configurations"],
     "All grid shapes, spacings, origins, projections and decimation factors.",
     "No stable test builds a lookup table.",
     ["quakemigrate/lut/lut.py"],
     [("ll_corner, node_spacing, node_count", "grid definition", "lut.py Grid3D")],
     [("index2coord/index2grid/coord2grid", "lut.py"), ("decimate", "lut.py Grid3D.decimate, LUT.decimate")],
     ["LUT/Grid3D public methods"])

prop("Q22", "Lookup tables survive saving, loading, copying and combining unchanged",
     "Saving a lookup table and loading it, by either route offered, gives a table that compares equal and answers every query the same (grid, stations, phases, uncertainty fraction and all traveltimes). Out-of-place operations (decimate, addition) leave their inputs unchanged; adding tables on the same grid gives a table serving every station of both, with stations already present keeping their traveltimes, and tables on different grids are refused.",
     ["histories", "inputs"],
     "All tables and all sequences of save/load/decimate/add operations.",
     "No stable test builds a lookup table.",
     ["quakemigrate/lut/lut.py", "quakemigrate/io/core.py"],
     [("traveltimes, station_data, phases", "table contents", "lut.py LUT")],
     [("pickle save/load", "lut.py LUT.save/load"), ("__add__, __eq__, decimate", "lut.py")],
     ["LUT.save, LUT.load, read_lut, LUT(lut_file=...), +, =="])

prop("Q23", "Traveltimes served are those of the named station, phase and place",
     "A homogeneous table stores, at every node, the straight-line distance from the station to that node divided by the phase velocity; a table read from NonLinLoc grids stores, for every station, phase and node, the value the grid file holds there. Traveltimes served for stacking are those tables in seconds times the sampling rate rounded to the nearest sample, for exactly the available station-phases in their order; point queries interpolate the table at the requested position; and the maximum traveltime is at least every served traveltime. Asking for a phase or station that is not in the table is an explicit error.",
     ["inputs", "configurations"],
     "All station positions, grids, velocities, sampling rates, availability maps and query points.",
     "No stable test builds a lookup table.",
     ["quakemigrate/lut/lut.py", "quakemigrate/lut/create_lut.py"],
     [("traveltimes[station][phase]", "table", "lut.py LUT")],
     [("homogeneous computation", "create_lut.py"), ("serve_traveltimes, traveltime_to", "lut.py")],
     ["compute_traveltimes, LUT.serve_traveltimes, LUT.traveltime_to, LUT.max_traveltime"])

prop("Q24", "Every autopick lies in its own window and is reported consistently",
     "For each event the phase-pick table and its file have exactly one row for each station-phase with an onset function, with the modelled arrival (origin time plus the traveltime from the grid node nearest to the hypocentre); the pick windows of one station are those the marginal window and fraction of traveltime give, cut at the mid-points so that they never overlap and lie inside the data. A pick is reported only if its peak exceeds the threshold the noise outside the windows gives, its time is inside its window, its error is positive and its residual is pick minus modelled time, and a clear Gaussian peak is picked at its centre with its width; otherwise every pick field has the no-pick value. A flat, noisy or missing onset never prevents the other picks.",
     ["inputs", "configurations", "fault_sequences"],
     "All onset shapes, traveltimes, window sizes, thresholds and availability patterns.",
     "No stable test runs the picker.",
     ["quakemigrate/signal/pickers/gaussian.py", "quakemigrate/signal/pickers/base.py"],
     [("picks dataframe", "one row per station-phase", "gaussian.py pick_phases")],
     [("pick windows", "gaussian.py _determine_window_indices"), ("Gaussian fit / threshold", "gaussian.py _fit_gaussian"), ("pick table write", "base.py write")],
     ["event.picks", ".picks file"])

prop("Q25", "Amplitudes are measured in the right windows, one row per component",
     "The amplitude table has one row for each of the three components of every station; a row has measurements exactly when one gap-free trace of that component covers the needed window and its response is available. The P and S amplitudes are the largest half peak-to-trough change inside the P and S windows derived from the picks (or modelled times), the windows of one station do not overlap, times fall inside the windows, and noise is measured before the P window. Measuring does not alter the event's stored waveforms.",
     ["inputs", "configurations", "fault_sequences"],
     "All waveforms, pick/no-pick patterns, missing or gappy components, window parameters.",
     "No stable test measures amplitudes.",
     ["quakemigrate/signal/local_mag/amplitude.py"],
     [("amplitudes dataframe", "one row per component", "amplitude.py get_amplitudes")],
     [("windows", "amplitude.py _get_amplitude_windows"), ("peak-to-trough", "amplitude.py _peak_to_trough_amplitude")],
     ["Amplitude.get_amplitudes return value"])

prop("Q26", "Event magnitude is the mean of exactly the observations passing all filters",
     "Each observation's magnitude is log10 of its amplitude (times the multiplier) plus the attenuation at its distance plus its station correction, and is absent only when the amplitude, noise or distance is unusable. An observation is used exactly when it passes every configured filter (noise ratio, trace, station, distance, pick); the event magnitude and error are the (weighted) mean and deviation of the used observations, r-squared their fit, and nothing is reported when none is. The table given is left as it was, and recorded amplitudes, distances and magnitudes are carried over unaltered.",
     ["inputs", "configurations", "histories"],
     "All amplitude tables and filter configurations, repeated calculations on the same table.",
     "No stable test computes a magnitude.",
     ["quakemigrate/signal/local_mag/magnitude.py", "quakemigrate/signal/local_mag/local_mag.py"],
     [("Used and *_Filter columns", "filter decisions", "magnitude.py")],
     [("filters", "magnitude.py _filter_mags"), ("mean", "magnitude.py mean_magnitude")],
     ["Magnitude.calculate_magnitudes, Magnitude.mean_magnitude"])

prop("Q27", "Cut waveform files hold the requested window, type and units of this event",
     "Each cut-waveform file for an event contains, for every trace that has the needed data and response, the event's raw, response-corrected or Wood-Anderson waveforms in the units asked for, from the requested pre-cut before the origin time to the requested post-cut after it, to the nearest sample, where data exist (all that was read where no cut is asked for). What is written does not depend on which other waveform types, units or amplitude measurements were produced before for the same event.",
     ["histories", "configurations", "inputs"],
     "All sequences of write requests, units, cut lengths and prior processing.",
     "No stable test writes waveforms.",
     ["quakemigrate/io/cut_waveforms.py", "quakemigrate/io/data.py"],
     [("raw/real/wa waveforms", "streams held by the event", "io/data.py WaveformData")],
     [("cut window and response removal", "cut_waveforms.py")],
     ["locate/<sub>/*_cut_waveforms files"])

prop("Q28", "Availability records round-trip and always describe the requested days",
     "The availability written by detect, read back for a time span, has for each station-phase and timestep of the days in the span the value detect recorded, once, in time order. Files in the earlier per-station format are read as the same station-phase information, and if no availability file exists for the span the documented error is raised.",
     ["histories", "inputs", "configurations"],
     "All run lengths over several days, restarts, station sets and file generations.",
     "No stable test reads or writes availability.",
     ["quakemigrate/io/availability.py", "quakemigrate/signal/scan.py"],
     [("availability dataframe", "timestep x station_phase", "availability.py")],
     [("split by day", "availability.py write_availability"), ("concatenate days", "availability.py read_availability")],
     ["detect/availability csv files", "read_availability return value"])

prop("Q29", "Run outputs are confined to their own run, stage and sub-run",
     "Every file a stage writes is inside the directory of its run, stage and sub-run name and carries the run name and event or day it belongs to; two runs or sub-runs with different names never overwrite or read each other's files, except that trigger and locate read the parent run's detect and the named sub-run's trigger output. Run names that the file format cannot carry are adjusted the same way by writer and reader.",
     ["histories", "configurations"],
     "All run names, sub-run names and sequences of stages on one run path.",
     "No stable test creates two runs.",
     ["quakemigrate/io/core.py", "quakemigrate/io/triggered_events.py", "quakemigrate/io/event.py", "quakemigrate/io/scanmseed.py"],
     [("run.path/name/subname", "where outputs go", "io/core.py Run")],
     [("path building", "io/core.py Run and writers")],
     ["files on disk under the run path"])

prop("Q30", "Exported catalogues carry the located event without altering it",
     "Reading a run's outputs into a catalogue gives one event for each event file that has picks, with the origin time, hypocentre, uncertainties (in metres and degrees), coalescence values, every modelled and automatic pick, amplitudes and magnitude of that event. Phase, station and marker files exported from it state the same stations, networks, phases and times, to their printed precision.",
     ["inputs", "configurations"],
     "All event, pick and amplitude files (with and without picks, magnitudes), units and sub-second times.",
     "No stable test exports anything.",
     ["quakemigrate/export/to_obspy.py", "quakemigrate/export/to_nlloc.py", "quakemigrate/export/to_snuffler.py", "quakemigrate/export/to_mfast.py"],
     [("catalogue", "obspy events", "to_obspy.py")],
     [("field mapping", "to_obspy.py"), ("line formats", "to_nlloc.py, to_snuffler.py")],
     ["read_quakemigrate return value", "exported files"])

prop("Q31", "Stages are repeatable: same inputs, same outputs, in any call history",
     "Running detect, trigger or locate again with the same inputs produces the same output files with the same contents, whether in the same objects, new objects or after other stages and other runs in the same process. No stage changes the lookup table, archive settings, onset or picker settings or the input files it was given.",
     ["histories"],
     "All call histories over stages, objects and runs in one process.",
     "Tests make single calls; hidden state only shows in sequences.",
     ["quakemigrate/signal/scan.py", "quakemigrate/signal/trigger.py", "quakemigrate/io/triggered_events.py", "quakemigrate/signal/onsets/stalta.py", "quakemigrate/lut/lut.py"],
     [("module and object state", "anything surviving a call", "all stages")],
     [("copies taken before in-place processing", "scan, onset, trigger, data modules")],
     ["output files, object attributes before and after"])

prop("Q32", "Settings stay valid through every history of assignments",
     "However trigger, scan, onset, picker, amplitude, magnitude, archive and grid objects are configured, by constructor or by later assignments in any order, every attribute reads as what was last accepted or its documented default, no matter what is done to other objects; an invalid setting (a minimum event interval below twice the marginal window; unknown threshold methods, onset positions, signal transforms, noise measures or archive formats; filters without frequencies or above the Nyquist frequency; objects of the wrong class) is refused with the documented error when it is set or, at the latest, when it is used, and a refused value leaves the one before in force; triggering never runs with an interval shorter than twice the marginal window; each renamed (deprecated) parameter reads and writes the setting that replaced it; the scan rate is always that of the onset object. Likewise, station and velocity-model files lacking required columns, traveltime requests lacking arguments, reversed or incomplete time spans, and scans of phases not in the lookup table are refused with the documented error.",
     ["histories", "configurations"],
     "All sequences of constructor arguments and attribute assignments, including deprecated names and invalid values.",
     "Tests configure one or two objects once.",
     ["quakemigrate/signal/trigger.py", "quakemigrate/signal/scan.py", "quakemigrate/signal/onsets/base.py", "quakemigrate/signal/onsets/stalta.py", "quakemigrate/signal/pickers/gaussian.py", "quakemigrate/signal/local_mag/amplitude.py", "quakemigrate/signal/local_mag/magnitude.py", "quakemigrate/io/data.py"],
     [("_min_event_interval, _threshold_method, ...", "settings", "property setters")],
     [("validating property setters", "all configuration classes")],
     ["public attributes and exceptions"])

prop("Q33", "Data windows are whole samples, wide enough and complete at every rate",
     "For any STA and LTA windows, position, integer sampling rate, traveltimes and span, the pre- and post-pads are whole numbers of samples and so wide that every onset that is migrated (the scanned samples and up to the largest traveltime after them) is computed from data outside the tapered 5 % at either end of the window read. In detect and locate, every window handed to the onset function begins and ends on samples at those pads; stations with complete data are available in every window, stations with gaps only where the window has none; onset functions are as long as the window and hold real values wherever they are migrated; for picking, onsets computed from tapered data are set to one, and the windows scanned add up to the requested span.",
     ["inputs", "configurations"],
     "All sampling rates (including those whose interval is no whole number of milliseconds or microseconds), window lengths, timesteps and marginal windows.",
     "Tests use one rate, 50 Hz, and one set of windows; rounding of times only shows at others.",
     ["quakemigrate/signal/onsets/base.py", "quakemigrate/signal/onsets/stalta.py", "quakemigrate/signal/scan.py", "quakemigrate/io/data.py", "quakemigrate/util.py", "quakemigrate/lut/lut.py"],
     [("pre_pad, post_pad", "window padding", "onsets/base.py"), ("availability", "which onsets exist", "OnsetData")],
     [("pads as whole samples", "util.trim2sample, Onset.pad"), ("complete-window test", "WaveformData.check_availability"), ("taper pad set to one", "STALTAOnset._trim_taper_pad")],
     ["pads, data windows, availability and onset arrays of calculate_onsets; .scanmseed"])

prop("Q34", "Tables made from velocity models follow the model, station by station",
     "For any one-dimensional velocity model, stations and grid (kilometres or metres): a fast-marching table holds at every node the traveltime of the front that starts at the node nearest to the station and runs through that phase's velocities of the model, linear between the model's depths and constant outside them; stations outside the grid are refused. A NonLinLoc table holds at every node the bilinear interpolation, at the node's horizontal distance from the station and at its depth, of the section computed for that station and phase; the section is asked for at the station's position, with the model's layers (constant, or with the gradient to the next layer) in km and km/s whatever the grid's units, and reaches every node and the station. Nothing NonLinLoc wrote remains unless asked for, and files that were there before stay as they were. A missing model or velocity column, missing or failing executables and unknown methods are refused with the documented error.",
     ["inputs", "configurations"],
     "All layered models, station and node positions, cell sizes, units and projections.",
     "Tests compare one table for one model, one grid and one method with a stored one.",
     ["quakemigrate/lut/create_lut.py", "quakemigrate/lut/lut.py"],
     [("traveltimes", "per station and phase table", "LUT"), ("NonLinLoc time section", "distance-depth times", "create_lut._read_nlloc")],
     [("eikonal solver call", "create_lut._eikonal_fmm"), ("control files and section interpolation", "create_lut._compute_1d_nlloc, _bilinear_interpolate")],
     ["values of compute_traveltimes; control files, models and sections exchanged with NonLinLoc's programs; directory contents"])

prop("Q35", "Figures are made for every result, show it and change nothing",
     "For any data, stations, phases, components, grid, region, threshold and settings: with figures requested, one trigger summary is made per day, one event summary per located event, one pick plot per event and station with picks and one amplitude plot per event with a magnitude; none is missing, and every other file of the run is what it is without figures. A trigger summary shows both coalescence traces, the static threshold on the trace triggered on, the time, marginal window and surrounding window of every event, its place and those of the stations used on map and sections, the region, the outlines given, the number of events and of available stations through time. An event summary shows the origin time, a cross at the hypocentre and the Gaussian uncertainty on map and sections, the slices of the marginalised map through its maximum, modelled arrivals beside the station they belong to, the coalescence and the magnitude written for the event. Pick plots show the modelled and picked times and uncertainties of the picks file within their windows; amplitude plots show every amplitude, noise amplitude and the amplitudes predicted by the magnitude and its bounds.",
     ["inputs", "configurations"],
     "All waveforms, station sets, components, phases, channel maps, regions and histories of figures drawn one after another in a process.",
     "Tests draw no figure at all or only look whether the files exist for one example.",
     ["quakemigrate/plot/trigger.py", "quakemigrate/plot/event.py", "quakemigrate/plot/phase_picks.py", "quakemigrate/plot/amplitudes.py", "quakemigrate/lut/lut.py", "quakemigrate/util.py"],
     [("figure", "axes with lines, spans, points, meshes and ellipses", "plot functions"), ("results", "trigger, event, picks and amplitude files", "io")],
     [("trigger summary", "plot.trigger.trigger_summary"), ("event summary", "plot.event.event_summary"), ("pick plot", "plot.phase_picks.pick_summary"), ("amplitude plot", "LocalMag.plot_amplitudes"), ("map and sections", "LUT.plot")],
     ["contents of every figure when saved; all files of the run"])

prop("Q36", "A well-recorded event is found, located at its source and timed at its origin",
     "For every source inside the grid whose P and S arrivals are recorded with little noise by stations around it: detect has the largest coalescence of that time at a node beside the source, trigger gives one event for it, and locate one event, whose origin time is that of the source to within the time a wave takes across a cell, whose interpolated location is within half a node of the source horizontally and one and a half in depth, whose modelled arrivals and picks are the arrivals at the stations, pick errors being the widths of the onsets, and whose coalescence is the mean height of the onsets. Where the map is above its mean around the source, the Gaussian location is at the source too and its errors along x, y and z are in proportion to the covariance errors along the same axes. Several sources give as many events; missing station-phases, grid units, unequal node spacings and day boundaries make no difference.",
     ["inputs", "configurations"],
     "All sources, networks, grids, onset widths and amplitudes, availability, and waveforms as well as prescribed onsets.",
     "No stable test runs detect, trigger and locate; the examples compare one event with stored numbers.",
     ["quakemigrate/signal/scan.py", "quakemigrate/signal/trigger.py", "quakemigrate/lut/lut.py", "quakemigrate/signal/pickers/gaussian.py", "quakemigrate/signal/onsets/stalta.py", "quakemigrate/io/event.py"],
     [("locations", "spline, gaussian and covariance location of the event", "io/event.py"), ("marginalised map", "time-marginalised coalescence", "scan.py _calculate_location")],
     [("spline location", "scan.py _splineloc"), ("Gaussian fit", "scan.py _gaufit3d"), ("covariance", "scan.py _covfit3d"), ("traveltimes", "lut.py serve_traveltimes, traveltime_to"), ("picks", "GaussianPicker.pick_phases")],
     ["day files, trigger files, .event and .picks files"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties")
