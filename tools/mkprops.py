"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = "src/py_eddy_tracker/"
rows = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    rows.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=[P + f if not f.startswith("src/") else f for f in files],
                mechanism=[dict(name=a, where=b) for a, b in mech],
                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                observe_at=list(observe), hook_needed=hook,
            ),
        )
    )


p("P01", "Tracking stopped anywhere and resumed equals one uninterrupted tracking",
  "If tracking over a series of identification files is stopped after any number of files (at least two), its state saved, and tracking later continued from the saved state over the longer series, then the links, link costs, gap-filling marks, track numbers and final tracks are identical to those of a single uninterrupted run. This holds for every number of stops, with or without gap filling, for every tracker class and its options, and whether files are read from disk or first loaded in memory.",
  ["crash_points", "histories", "configurations"],
  "every stop point (and every sequence of stop/resume), every eddy population with births, deaths, gaps, merges and splits, every gap-filling length, tracker and read mode",
  "Tests track a handful of files in one go and never resume; no test saves the virtual-observation state and continues from it, let alone at each possible stop point.",
  ["tracking.py", "observations/observation.py", "featured_tracking/area_tracker.py"],
  [("Correspondances.load_state / to_netcdf (last id, last virtual groups)", P + "tracking.py"),
   ("previous_correspondance argument", P + "tracking.py:60")],
  [("LastVirtualObs/LastPreviousVirtualObs", "extrapolated observations alive at the stop", P + "tracking.py")],
  ["list of link tables", "last used id", "merged track file"])

p("P02", "Every detected eddy ends in exactly one tracking output, unaltered",
  "After a complete tracking run, each observation present in the identification files appears exactly once in the union of the long-track, short-track and untracked outputs, with all its stored values unchanged, and those outputs contain no other observation except the ones flagged as gap-filling. A track is in the long output exactly when it has at least the configured minimum number of observations, and the outcome is the same for packed or unpacked processing and for netCDF or zarr output.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "every eddy population and history of appearances, missed detections and re-detections (including files without any eddy and steps without any link), every minimum duration, gap length, tracker, output format",
  "Tests check one merge on bundled files; conservation over arbitrary birth/death/gap histories, all-long or all-short outcomes and empty steps is never exercised.",
  ["tracking.py", "appli/eddies.py"],
  [("merge / get_unused_data / longer_than / shorter_than", P + "tracking.py"), ("track", P + "appli/eddies.py")],
  [], ["the three output files of the tracking command"])

p("P03", "Tracks bridge gaps up to the configured length and are internally consistent",
  "Where eddies are unambiguous, two successive sightings separated by at most the configured number of undetected steps belong to the same track provided the eddy had been linked before the gap, and longer absences always end the track. In every output track the observation numbers run 0,1,2,... with one observation per time step, the dates increase by one step each, every missing step inside a track is present exactly once and flagged as gap-filling with values interpolated in time between its neighbours, and no detected observation carries that flag.",
  ["histories", "fault_sequences", "configurations"],
  "every pattern of missed detections (length, position, repeated gaps, simultaneous gaps of several eddies), every maximum gap length and tracker",
  "The existing tests never enable gap filling over a dropout pattern, and a sample of bundled files contains only a few gap shapes.",
  ["tracking.py", "observations/observation.py", "observations/groups.py"],
  [("recense_dead_id_to_extend / propagate / virtual_length", P + "tracking.py"), ("filled_by_interpolation", P + "observations/groups.py")],
  [("virtual_obs", "eddies alive only by extrapolation, with the number of steps elapsed", P + "tracking.py")],
  ["the long and short track outputs"])

p("P04", "A saved tracking state reloads as itself and finishes like the original",
  "A tracking state written to a file and read back has the same input file list, the same links with the same track numbers, costs and gap marks, the same tracker class and options, and hands out the same next track number. Finishing from the reloaded state (building tracks, splitting long and short ones, listing untracked observations) gives the same outputs as finishing without saving.",
  ["histories", "crash_points", "configurations"],
  "every tracking state, including steps without any link, no gap filling yet, and file names given as text or bytes",
  "One test writes and re-reads a correspondence in memory from in-memory inputs; file names, empty steps, id counters and finishing from the reloaded file are not looked at.",
  ["tracking.py", "src/scripts/EddyFinalTracking", "appli/eddies.py"],
  [("to_netcdf / from_netcdf", P + "tracking.py"), ("prepare_merging, merge, get_unused_data", P + "tracking.py")],
  [], ["reloaded object", "outputs of the finishing script"])

p("P05", "Tracking segments computed separately join into the single-run tracking",
  "When a period is tracked without gap filling as consecutive segments that overlap by at least two identification files (at least one shared link step) and the segment states are joined in order, the joined state has the same tracks as one tracking run over the whole period: the same observations linked together, track numbers unique per track and next number unused. States that do not fit (less than two files in common, different gap filling) are rejected, with the first state unchanged.",
  ["schedules", "histories", "inputs"],
  "every split of the period in overlapping segments, every population of eddies (including tracks that start, stop or pass through the junction), without gap filling",
  "No test joins correspondence files.",
  ["tracking.py", "src/scripts/EddyMergeCorrespondances"],
  [("merge_correspondance", P + "tracking.py")],
  [], ["joined link tables", "final tracks"])

p("P06", "Results do not depend on listing order, clock, hash seed or process history",
  "The tracks, untracked observations and network groups produced from the same files and settings are the same whatever order the file system lists the files in, whatever the wall-clock time, whatever the interpreter's hash seed, and whatever was computed earlier in the same process. Only the recorded production date may follow the clock.",
  ["schedules", "configurations", "histories"],
  "every directory listing order, clock value and jump, hash seed, and preceding workload",
  "Tests run with one fixed hash seed, one listing order and one clock.",
  ["appli/eddies.py", "observations/observation.py", "observations/network.py"],
  [("browse_dataset_in sort", P + "appli/eddies.py"), ("sorted glob", P + "observations/network.py")],
  [], ["output files of tracking and network construction"])

p("P07", "An interrupted or failed save never leaves a file that reads as something else",
  "When saving observations or a tracking state is cut short at any point (process killed, full disk, failed system call), the destination afterwards either does not read at all, or reads as the complete new content or as the complete previous content; it never loads with missing variables, zeros or a mixture. A save that returns without an error has stored everything, and a save that could not store everything reports an error.",
  ["crash_points", "fault_sequences"],
  "every write, truncate, create, rename or remove issued while saving, as a crash point or as a failing call, for netCDF and zarr, for new and pre-existing destinations",
  "Tests only save successfully to in-memory datasets.",
  ["observations/observation.py", "tracking.py"],
  [("write_file", P + "observations/observation.py"), ("save", P + "tracking.py")],
  [], ["destination path re-opened after the crash"])

p("P08", "Observations read back identical through every source, slice and I/O behaviour",
  "Observations written to netCDF or zarr, packed or unpacked, read back with the same values, variables, sign and order whether given as path, open file, in-memory buffer, archive member or zarr store, in whole or for any slice and choice of variables, with any read-buffer or chunk size and with short or interrupted system reads. A read that fails part-way (I/O error, truncated file) raises an error instead of returning incomplete data, and reading again afterwards succeeds.",
  ["inputs", "fault_sequences", "configurations"],
  "every dataset size and content, source kind, slice, buffer/chunk size relation, short-read pattern and failing read",
  "Tests check one zarr raw copy and one merge; buffer boundaries, slices, archive members, short reads and failed reads are never combined.",
  ["observations/observation.py"],
  [("load_file / load_from_netcdf / load_from_zarr / copy_data_to_zarr", P + "observations/observation.py"),
   ("create_variable / create_variable_zarr", P + "observations/observation.py")],
  [], ["loaded dataset"])

p("P09", "Grid contents do not depend on when or how often they are loaded",
  "A grid gives the same coordinates, fields, masks, units, interpolations and spectra-ready data whatever the order in which variables are first requested, released from memory, requested again or loaded ahead of use, and whatever failed in between. A read failure is reported to the caller and leaves the grid able to give the right answer as soon as reads work again.",
  ["histories", "fault_sequences", "schedules"],
  "every sequence of requests, releases and reloads on one or several grids, with read failures at any point",
  "Grid tests call a few methods once on a healthy file.",
  ["dataset/grid.py"],
  [("populate / clean / grid / load lazy loading", P + "dataset/grid.py")],
  [("vars, dimensions, x_c, y_c", "cached contents", P + "dataset/grid.py")],
  ["returned arrays"])

p("P10", "Advection through a grid series is independent of memory windows and other users",
  "Particle positions, filament lines and interpolated values computed from a series of grids are the same whether grids are kept or released along the way, whether other advections or interpolations over the same series are interleaved at any step, and whether the advection is run in one go or stopped and continued from its last state at a grid date. Sliding the series window forward and then using it equals using the full series.",
  ["schedules", "histories", "configurations"],
  "every interleaving of several advections and interpolations over one series, release policy, window movement, forward and backward, and stop/continue split at grid dates",
  "No test runs an advection; documentation examples run one at a time on a preloaded series.",
  ["dataset/grid.py", "observations/groups.py"],
  [("GridCollection advect / filament / reset_grids / shift_files / interp", P + "dataset/grid.py")],
  [], ["yielded positions"])

p("P11", "Network groups are the connected components of the overlap relation",
  "Building a network puts two observations in the same group exactly when they are connected by a chain of contour overlaps between observations separated by at most the configured number of files, isolated observations are left in the ungrouped class, and every input observation appears once with its values. The result is the same whatever the buffer size, memory mode, listing order and other networks built before, after or interleaved with it in the same process.",
  ["schedules", "histories", "configurations"],
  "every eddy population, window length, contour kind, and every history or interleaving of network constructions in one process",
  "The only test of network construction checks the union-find helper on one array; the shared contour buffer is never used twice.",
  ["observations/network.py"],
  [("Network.group_observations / build_dataset / Buffer", P + "observations/network.py")],
  [("Buffer singleton", "contours of recent files", P + "observations/network.py")],
  ["group number per observation"])

p("P12", "Network links stay consistent through any sequence of operations",
  "After segmenting a network and after any sequence of extracting, sorting, renumbering, cleaning and splitting operations, every link to a next or previous observation designates an observation of the same network that exists and lies strictly later or earlier, consecutive observations of a segment are chained in time order without a branch, and each segment number is used by one segment only. Observations kept by an operation keep their values and their links to each other.",
  ["histories", "inputs"],
  "every network topology (births, deaths, merges, splits, gaps) and every sequence of public network operations",
  "No test calls network operations on a segmented network; consistency after arbitrary sequences is a statement about histories.",
  ["observations/network.py", "observations/tracking.py"],
  [("split_network / set_tracks / follow_obs", P + "observations/tracking.py"),
   ("extract_with_mask, sort, numbering_segment, remove_dead_end, correct_close_events", P + "observations/network.py")],
  [], ["next/previous/segment/track fields"])

p("P13", "Queries on tracks and networks never answer from stale indexes",
  "The answers about a set of tracks or networks (number, position and length of each track, segment or network, period, selections by track, date, duration or position) always match its current observations after any sequence of queries, selections, renumberings, insertions, copies and merges, including operations that failed. Deriving a new dataset leaves the source unchanged, and changing the derived one does not change the source.",
  ["histories"],
  "every sequence of public operations interleaved with queries that fill caches",
  "Tests look at freshly loaded objects only; staleness needs a query-modify-query history.",
  ["observations/tracking.py", "observations/network.py", "observations/observation.py"],
  [("lazy index caches and their resets", P + "observations/tracking.py"), ("reset_index", P + "observations/network.py"), ("period_", P + "observations/observation.py")],
  [("lazy caches", "first index, count per track/segment/network, period", P + "observations/")],
  ["query results"])

p("P14", "Particle coherence is independent of execution order, chunking and window",
  "The target observations and percentages obtained by advecting particles between eddies do not depend on the order, grouping or worker in which time steps are executed, nor on whether the velocity series is used whole or through a sliding window, and each observation's result equals the one computed alone for its date. A step that fails and is retried leaves no trace in the result.",
  ["schedules", "fault_sequences", "histories"],
  "every execution order and retry pattern of the per-step tasks, window size, advection direction and duration",
  "No test runs particle coherence.",
  ["observations/groups.py", "observations/network.py", "dataset/grid.py"],
  [("particle_candidate_atlas callbacks", P + "observations/groups.py"), ("segment_coherence", P + "observations/network.py")],
  [], ["target indexes and percentages"])

p("P15", "The animation shows the right eddies after any keys, pauses and timer delays",
  "At every moment the animated display shows exactly the contours of the dates in the trailing window that ends at the displayed date, with colours and labels of those same eddies, for every sequence of play, pause, step forward, step back, speed changes and resizes, for dates without observations, and for every delay or jump of the clock. Unless paused, playing reaches the last date in a bounded number of frames.",
  ["schedules", "histories", "inputs"],
  "every sequence of key events and timer firings relative to frames, every clock behaviour, datasets with empty dates, with and without colour and label fields",
  "No test drives the animation.",
  ["appli/gui.py"],
  [("Anim.show/keyboard/update/draw_contour", P + "appli/gui.py")],
  [("segs/t_segs/c_segs", "trailing contours per date", P + "appli/gui.py")],
  ["line collection and text artists"])

p("P16", "Identification depends only on the grid and settings, not on what ran before",
  "Identifying eddies on a grid gives the same eddies whatever identifications, filters, loads, releases or failed attempts happened before on other grids or on the same data, and whichever of several dates, areas or grids are processed together or apart. It leaves the grid it reads unchanged, so repeating it gives the same eddies. A filter changes only the grid it is applied to, and a filter or derivation of currents that fails changes nothing.",
  ["histories", "fault_sequences", "schedules"],
  "every order and repetition of identification, filtering and interpolation calls in one process, including interrupted ones",
  "Identification is not run by the tests beyond contour helpers; dependence on history cannot be seen in single calls.",
  ["dataset/grid.py", "eddy_feature.py", "appli/grid.py"],
  [("eddy_identification", P + "dataset/grid.py"), ("Contours", P + "eddy_feature.py")],
  [], ["returned observations", "grid variables"])

p("P17", "Remote samples are returned whole or refused",
  "Fetching a demonstration sample over the network returns exactly the published observations, in archive order, and gives an error when the server answers with an error, the transfer is cut short or an archive is damaged; it never returns part of the sample or an error page as data. A later fetch works once the network does.",
  ["fault_sequences"],
  "every server status, truncation point and damaged byte of the payload, for single files and archives",
  "Tests never fetch; no network.",
  ["data/__init__.py"],
  [("get_remote_demo_sample", P + "data/__init__.py")],
  [], ["returned buffers"])

p("P18", "The atlas browser shows the eddies of its date whatever the user did before",
  "After any sequence of keys, wheel turns, pointer moves, drags of the time line, changes of area, resizes, redraws and saved pictures, the atlas browser shows exactly the contours, past and future paths, numbers, counts and date of the eddies of each atlas at its current date inside its area, and the information and curve of the eddy under the pointer and of no other. Information disappears when the pointer leaves the eddy or the date changes, and leaves nothing behind. It works for any number of atlases, contour samplings and track lengths, and does not change the atlases.",
  ["schedules"],
  "all sequences of user events, atlases, contour samplings, dates without eddies",
  "No test opens the browser.",
  ["gui.py", "appli/gui.py"],
  [("GUI", P + "gui.py"), ("guieddy", P + "appli/gui.py"), ("flatten_line_matrix", P + "generic.py")],
  [], ["artists of the figure", "pixels of the window"])

p("P19", "Programs interrupted and rerun give the products of an undisturbed chain",
  "Every command-line program that writes data (identification, tracking, finishing, merging, subsetting, translating, circles, frequency, group comparison, networks and their subsets, grid filtering) either ends normally with complete and correct products or fails visibly. Whatever interrupts it (killed at any point, failing write, read or open, interruption, lack of memory), each of its products is then missing, unreadable, what it was before, or complete; its inputs and the products of other programs are untouched; and running it again, then the rest of the chain, gives exactly the products and the text of a chain nothing disturbed.",
  ["crash_points", "fault_sequences", "programs"],
  "all chains of the programs, inputs, interruptions and I/O failures",
  "Tests never run two programs in a row, nor interrupt one.",
  ["appli/eddies.py", "appli/network.py", "appli/grid.py", "src/scripts/EddySubSetter", "src/scripts/EddyTranslate"],
  [("programs on eddies", P + "appli/eddies.py"), ("programs on networks", P + "appli/network.py"), ("programs on grids", P + "appli/grid.py"), ("EddySubSetter", "src/scripts/EddySubSetter"), ("EddyTranslate", "src/scripts/EddyTranslate"), ("RegularGridDataset.write", P + "dataset/grid.py")],
  [], ["files of the working folder"])

NA = [
 ("P30", "Contour overlap, area and containment are geometrically exact",
  "Overlap ratio, polygon area, bounding-box prefilter and point-in-contour tests agree with exact planar geometry, including contours that cross the date line.",
  ["poly.py", "generic.py"], [("vertice_overlap, poly_area, bbox_intersection", P + "poly.py")]),
 ("P31", "Shape error and circle/ellipse fits are exact and invariant",
  "The fitted circle or ellipse and the shape error do not depend on the starting vertex, orientation or position of the contour and equal the least-squares solution.",
  ["poly.py"], [("fit_circle, fit_ellipse, shape_error", P + "poly.py")]),
 ("P32", "Identified eddies satisfy every physical criterion",
  "Each identified eddy has the required sign, amplitude, pixel count, shape error, single extremum and nested contours, and eddies of the same sign do not share pixels.",
  ["dataset/grid.py", "eddy_feature.py"], [("eddy_identification, Amplitude", P + "eddy_feature.py")]),
 ("P33", "Spatial filters preserve constants and attenuate as specified",
  "High- and low-pass filters of a grid sum to the original, leave a constant field invariant, respect masks and attenuate at the chosen wavelength.",
  ["dataset/grid.py"], [("bessel/lanczos filters", P + "dataset/grid.py")]),
 ("P34", "Link selection picks the cheapest compatible pairs",
  "Given a cost matrix, each eddy is used at most once and links are chosen in increasing order of cost.",
  ["observations/observation.py"], [("solve_simultaneous, solve_first", P + "observations/observation.py")]),
 ("P35", "Interpolation on regular and unregular grids is bilinear and mask aware",
  "Interpolated values are bounded by and linear in the surrounding valid grid points, and missing where those are missing.",
  ["dataset/grid.py"], [("interp2d_bilinear / nearest", P + "dataset/grid.py")]),
 ("P36", "Geographic statistics count each observation in exactly one cell",
  "Counts, histograms and gridded statistics assign every observation to the cell that contains it and sum to the number of observations.",
  ["observations/observation.py", "generic.py"], [("grid_count, grid_stat, hist_numba", P + "observations/observation.py")]),
 ("P37", "Distances, longitude wrapping and unit conversions are exact",
  "Distances are symmetric and invariant by 360 degree shifts, wrapped longitudes fall in the requested range, and unit conversions are exact.",
  ["generic.py"], [("distance, wrap_longitude, uniform_resample", P + "generic.py")]),
 ("P38", "Spectra and coherence estimates conserve variance",
  "The spectrum of a grid line conserves its variance and coherence stays within zero and one.",
  ["dataset/grid.py"], [("spectrum_lonlat, compute_finite_difference", P + "dataset/grid.py")]),
]
for id, title, st, files, mech in NA:
    p(id, title, st, ["inputs"], "every numeric input", "Tests sample a few hand-made inputs of a continuous domain.", files, mech)

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as h:
    for r in rows:
        assert len(r["title"]) <= 80, (r["title"], len(r["title"]))
        h.write(json.dumps(r) + "\n")
print(len(rows))
