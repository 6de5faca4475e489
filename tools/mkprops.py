"""Writes /verif/properties.jsonl (single place where the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/aspsim/"+f for f in files],
                     mechanism=[dict(name=n, where="src/aspsim/"+w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Microphone signals are the sum of all sources filtered by their paths",
  "At every simulated sample, the signal of a microphone array equals the sum, over every source array with a path to it, of that source's signal since the start of the simulation filtered through that path's impulse response (summed over the source's channels); the recorded per-source contributions, when requested, are exactly the terms of that sum. Free sources deliver each of their samples once and in order, one per simulated sample, starting either with one sample just before time 0 or, when sources are started early, with a full buffer of samples before time 0. Sources without a path to a microphone contribute nothing, and samples before the first source sample are zero.",
  ["inputs", "configurations", "histories"],
  "All arrays, channel counts, impulse responses, source signals, buffer and chunk sizes, and all sample indices.",
  "Tests check a handful of delays and amplitudes for one source and one microphone; the claim ranges over all sets of arrays, paths and all samples of a run.",
  ["simulator.py"],
  [("Propagator.__init__/prepare/propagate", "simulator.py Propagator"), ("Signals.__init__/create_signal", "simulator.py Signals"), ("Simulator.run_simulation", "simulator.py Simulator")],
  ["recorded microphone and source signals"])
p("C02", "The simulated sound field does not depend on the chunk size",
  "With everything else equal, a simulation gives the same signal values at the same global sample indices, to processors and to diagnostics, whatever chunk size is chosen that is at least as large as the largest block. Moving to the next chunk never drops, repeats or shifts a sample: the most recent history (at least the buffer length less one block) and all samples already written ahead of the current index keep their values and their position relative to the current index, and samples not yet produced are zero.",
  ["configurations", "histories"],
  "All chunk sizes and buffer sizes not smaller than the largest block size, all block sizes and all lengths of simulation.",
  "A chunk boundary only shows with particular combinations of chunk, buffer, block and total length; tests use a few fixed combinations.",
  ["simulator.py"],
  [("Signals._reset_signals", "simulator.py Signals"), ("last_block_on_buffer, diag_moved_from_propagate", "simulator.py Simulator"), ("run_simulation", "simulator.py Simulator")],
  ["signals seen by a processor", "exported diagnostics"])
p("C03", "Processors are called once per block, with exactly the past and the coming block",
  "A processor with block size B is called exactly once for each full block, right before every global sample index n with n mod B = B-1 (and at no other time) is produced, with B as the number of samples. At that call all microphone samples before n are available at their final value and no later microphone sample exists; whatever the processor writes for the samples from n to n+B-1 of a controllable source is exactly what that source plays at those samples.",
  ["histories", "configurations", "inputs"],
  "All block sizes, buffer and chunk sizes not smaller than the block size, simulation lengths and processor behaviours.",
  "Tests run a few block sizes with a processor that copies noise; they cannot cover every alignment of blocks with chunk boundaries.",
  ["simulator.py", "processor.py"],
  [("run_simulation", "simulator.py Simulator"), ("_prepare_simulation", "simulator.py Simulator"), ("propagate", "simulator.py Propagator")],
  ["calls of AudioProcessor.process", "signals played by controllable sources"])
p("C04", "Diagnostics hold exactly the samples they were asked for, unaltered",
  "A signal or filter recording that is exported contains, at each time index covered by its save interval or save frequency and before the export time, exactly the value that signal or processor state had when that sample was produced, and holds no data at every other time index. This is true whatever the chunk size, block size, save interval and export times, and independently of which other diagnostics are recorded. (Time index t is the sample that step t-1 produces: a processor called in step n has seen exactly the indices up to n.)",
  ["histories", "configurations", "inputs"],
  "All save intervals/frequencies, export indices, block and chunk sizes, buffers larger than the block size, signal contents and sets of simultaneous diagnostics.",
  "The tests check recordings of a counter for a few parameters; the interplay of save intervals, block and chunk boundaries and several diagnostics is an unbounded product.",
  ["diagnostics/core.py", "diagnostics/diagnostics.py"],
  [("Logger.save_data", "diagnostics/core.py Logger"), ("IntervalCounter", "diagnostics/core.py"), ("get_values_up_to_idx, get_values_from_selection", "diagnostics/core.py"), ("RecordSignal.save", "diagnostics/diagnostics.py")],
  ["exported npz files", "get_processed_output"])
p("C05", "Every diagnostic is exported exactly once per requested export index",
  "A diagnostic is exported once for each of its export indices that the simulation reaches, in increasing order, at no other time, and each export file is labelled with the index it was requested for and contains only data from before that index. Asking for one diagnostic's exports never suppresses, delays, or duplicates the exports of another one.",
  ["histories", "configurations"],
  "All lists of export indices and export frequencies, any number of diagnostics with different settings, all block and chunk sizes.",
  "Tests use one or two diagnostics with a few export times; schedules of several diagnostics with different save and export settings are unbounded.",
  ["diagnostics/core.py"],
  [("Logger.dispatch, export_this_idx, update_next_export", "diagnostics/core.py Logger"), ("IndexCounter", "diagnostics/core.py"), ("Diagnostic.progress_export", "diagnostics/core.py")],
  ["files in the figure folder"])
p("C06", "A source's stream does not depend on how it is split into blocks",
  "Asking a source for a samples and then b samples gives exactly the same stream, and leaves it in the same state, as asking for a+b samples at once, for every source type and every a and b; every call returns one row per channel and one column per requested sample. For random sources this holds for equal random generator states.",
  ["inputs", "histories"],
  "All source types and parameters (channels, frequencies, periods, sequences, end modes), all source states and all block lengths.",
  "Partition independence ranges over all states and all splits; tests try none or a few for two source types.",
  ["signal/sources.py"],
  [("get_samples of Sequence, WhiteNoiseSource, SineSource, Counter, MultiSineSource, BandlimitedNoiseSource, PulseTrain, AutocorrSource, MLS, GoldSequenceSource", "signal/sources.py")],
  ["arrays returned by get_samples"])
p("C07", "Deterministic sources generate the waveform their parameters define",
  "The k-th sample of a sine source is amplitude times the cosine of start phase plus 2*pi*frequency*k/samplerate, with the amplitude whose mean power is the requested power (and a multi-sine source is the sum of such sinusoids), a pulse train is the amplitude at the samples whose index minus the delay is a multiple of the period and 0 elsewhere, a counter counts up by one per sample from its start number, and a sequence source plays the scaled audio from its start in order, starting over, giving silence or raising an error at the end according to its end mode. No amplitude, sample or channel is lost at a wrap-around.",
  ["inputs", "histories"],
  "All parameters and all sample indices.",
  "Wrap-arounds happen after arbitrarily many samples and for arbitrary combinations of length, period and block size.",
  ["signal/sources.py"],
  [("SineSource, MultiSineSource, PulseTrain, Counter, Sequence", "signal/sources.py")],
  ["arrays returned by get_samples"])
p("C08", "Block partitions cover a range exactly once, respecting block and buffer bounds",
  "Splitting a number of samples into processing blocks from a start position within the first block gives positive block lengths that sum to the number of samples, never exceed the block size, and put every interior block boundary on a multiple of the block size. The processor helpers likewise give consecutive blocks that cover exactly the requested range, up to the index to end at, without running past the end of a buffer, and return nothing to do when the range is empty.",
  ["inputs"],
  "All non-negative sample counts, start indices, block sizes, buffer and chunk sizes.",
  "The existing tests sample a few parameter values with a generator; the claim is for all integers.",
  ["utilities.py", "processor.py"],
  [("calc_block_sizes", "utilities.py"), ("calc_block_sizes_with_buffer, find_first_index_for_block, block_process_until_index", "processor.py")],
  ["returned block sizes"])
p("C09", "Trajectories give the defined position at every time index",
  "A linear trajectory visits its points in order along straight lines, returns to the start after each period, and at each time index is at the point determined by constant speed or by constant time per segment; a circular trajectory stays at distance equal to its current radius from its center, at the angle and radius determined by its start values and periods. A position is a function of the time index only, always has one row per moving point, is periodic with the period, and a collection of trajectories gives each member's position in the order given.",
  ["inputs"],
  "All point lists, periods, sample rates, radius intervals, start angles and all time indices.",
  "Tests look at a few positions of one trajectory; the property is for every time index and geometry.",
  ["room/trajectory.py"],
  [("LinearTrajectory", "room/trajectory.py"), ("CircularTrajectory", "room/trajectory.py"), ("TrajectoryCollection, Trajectory.current_pos", "room/trajectory.py")],
  ["current_pos"])
p("C10", "Regions: membership is the geometric set, and generated points are members",
  "For cuboids, rectangles, discs, balls and cylinders, the membership test is true exactly for the points of the geometric set given by center, size and (for planar regions) plane, evaluated point by point. Every randomly sampled point lies in the region and the requested number of points is returned, and the evenly spaced grid points are symmetric about the center, lie in the region and are spaced no further apart than the requested spacing.",
  ["inputs"],
  "All centers, sizes, spacings, numbers of points, random draws and query coordinates.",
  "Tests sample random points for a few fixed regions; membership must hold for all draws, sizes and centers.",
  ["room/region.py"],
  [("Cuboid, Rectangle, Disc, Ball, Cylinder: is_in_region, sample_points, equally_spaced_points", "room/region.py")],
  ["returned booleans and coordinates"])
p("C11", "A combined region is the union of its parts",
  "A point is in a combined region exactly if it is in at least one of its parts; its evenly spaced points are the points of the parts in order. Every sampled point lies in one of the parts, the requested number of points is returned, and each part is chosen with probability proportional to its volume.",
  ["inputs", "configurations"],
  "All lists of parts, all query points, all random draws and numbers of points.",
  "No test uses membership or the volume weighting of a combined region.",
  ["room/region.py"],
  [("CombinedRegion", "room/region.py")],
  ["returned booleans and coordinates"])
p("C12", "Moving arrays: impulse responses always belong to the current positions",
  "Whenever an array moves, before the next sample is propagated the impulse responses between it and every other array with a recomputed (not user-supplied) path belong to the positions at that time index, and the propagation of that sample uses them. Positions change only at multiples of the array update interval, follow the trajectory, and paths between arrays that did not move stay unchanged.",
  ["histories", "configurations"],
  "All trajectories, update intervals, sets of moving and static arrays, and all time indices.",
  "Tests use a handful of moving simulations; the update must be right at every time index and for every mix of moving and static arrays.",
  ["array.py", "simulator.py"],
  [("ArrayCollection.update, update_path", "array.py"), ("Array.update", "array.py"), ("Propagator.propagate", "simulator.py")],
  ["positions and paths during a simulation"])
p("C13", "Generated impulse responses have the right shape and values for their type",
  "A generated path has one impulse response per source channel and microphone, is all zeros when the propagation type is none, and for the type direct is a unit impulse at the first sample between channels with equal index and zero between all others (without high-pass filter); a path generated for several microphones at once equals the paths generated for each microphone alone. Image source paths consist of finite numbers, use positions translated so that the configured room center is respected, and are cut or zero padded to exactly the configured maximum length.",
  ["inputs", "configurations"],
  "All numbers of sources and microphones, positions, room sizes and centers, maximum lengths and propagation types.",
  "Tests check one or two geometries; batching and translation must hold for any number of microphones and any room.",
  ["room/roomimpulseresponse.py"],
  [("PathGenerator.create_path", "room/roomimpulseresponse.py"), ("ir_room_image_source_3d", "room/roomimpulseresponse.py")],
  ["paths used by the simulation"])
p("C14", "Path settings: user-supplied paths win and others follow the chosen types",
  "An impulse response set by the user is used unchanged in the simulation, whatever default or per-pair propagation type is set afterwards, and is never recomputed. Each remaining pair of a source and a microphone array uses the type set for that pair if one was set and the default type otherwise, every such pair has exactly one path, and sources have no path to sources nor microphones to microphones.",
  ["configurations", "histories"],
  "All sets of arrays and all orders of setting paths, path types and adding arrays.",
  "Orders of setup calls are unbounded; tests use a few fixed orders.",
  ["array.py", "simulator.py"],
  [("set_prop_path, set_prop_paths, set_path_types, set_default_path_type, setup_ir", "array.py ArrayCollection"), ("SimulatorSetup.set_path, add_arrays", "simulator.py")],
  ["paths of the created simulator"])
p("C15", "A stored session is reused only for an identical acoustic setup",
  "A saved session is loaded when the requested setup is identical, and only if its arrays are the same (names, kinds, positions, directivity, propagation types and user-supplied paths) and every configuration value that influences the impulse responses is equal; otherwise a new session is computed and saved. A simulation that uses a loaded session has the same impulse responses as the session that was saved.",
  ["configurations", "histories"],
  "All pairs of stored and requested setups that differ in any aspect.",
  "The tests only compare a few pairs of setups.",
  ["saveloadsession.py", "configutil.py", "array.py"],
  [("search_for_matching_session, load_session, save_session", "saveloadsession.py"), ("equal_audio", "configutil.py"), ("prototype_equals", "array.py")],
  ["paths of the created simulator"])
p("C16", "A configuration survives saving and loading unchanged",
  "Saving a configuration to a folder and loading it gives a configuration with equal values in all fields and the same types, for every valid configuration. The bundled default configuration can always be loaded and is itself a fixed point of saving and loading.",
  ["inputs"],
  "All valid values of every configuration field.",
  "No test writes and reads configurations other than the default one.",
  ["configutil.py"],
  [("SimulatorInfo.save_to_file, load_from_file, load_default_config", "configutil.py")],
  ["loaded configuration"])
p("C17", "Result folders are unique; cleanup removes only outdated exports",
  "A new result folder or file name never coincides with an existing entry of the parent folder. When plots or data of a diagnostic are exported and older exports are replaced, only files of that same diagnostic with an earlier index are deleted: exports of the current or later index, and files of other diagnostics, including those whose names start or end alike, stay.",
  ["inputs", "histories", "configurations"],
  "All folder contents, names and numbers.",
  "Depends on arbitrary folder contents and names; not tested at all.",
  ["fileutilities.py", "diagnostics/plot.py"],
  [("get_unique_folder_name, get_multiple_unique_folder_names", "fileutilities.py"), ("find_all_earlier_files, find_index_in_name, get_highest_numbered_file", "fileutilities.py"), ("delete_earlier", "diagnostics/plot.py")],
  ["files and folders on disk"])
p("C18", "The phase counter is in each phase for exactly its number of steps, in order",
  "A phase counter runs through its phases in the given order, stays in each finite phase for exactly the given number of steps, skips phases of zero length, and stays forever in an infinite phase; after the last finite phase no phase is current. The current-phase query is true exactly for that phase, and while a phase is current the first-step indication is true exactly in its first step.",
  ["inputs", "histories"],
  "All ordered sets of phase lengths and all numbers of steps.",
  "No test exercises the phase counter over arbitrary lengths.",
  ["counter.py"],
  [("PhaseCounter", "counter.py")], ["phase, first_sample, current_phase_is"])
p("C19", "The event counter signals each event exactly at its period and offset",
  "An event with frequency f and offset d is signalled after the i-th progress step (i >= 1) exactly if (i - d) is divisible by f, for each of any number of independent events, and at no other step.",
  ["inputs", "histories"],
  "All events, frequencies, offsets and numbers of steps.",
  "No test exercises the event counter.",
  ["counter.py"],
  [("EventCounter", "counter.py")], ["event flags"])
p("C20", "Coordinate transforms and point layouts have the geometry they state",
  "Cartesian coordinates converted to spherical or polar coordinates and back are unchanged, with angles in the documented range. Generated circles have all points at the given radius at equal angles from the start angle, cylinders and discs keep points within radius and height, filled rectangles and cuboids fill their limits with an even grid, and points on a rectangle lie on its sides with equal distance along the perimeter.",
  ["inputs"],
  "All numbers of points, radii, side lengths, offsets and angles.",
  "Tests check one layout for a few values.",
  ["room/generatepoints.py"],
  [("cart2spherical, spherical2cart, cart2pol, pol2cart", "room/generatepoints.py"), ("equiangular_circle, equidistant_rectangle, uniform_cylinder, uniform_disc, uniform_filled_rectangle, uniform_filled_cuboid, stacked_equidistant_rectangles", "room/generatepoints.py")],
  ["returned coordinates"])
p("C21", "State diagnostics read the named state at the block they are due",
  "A state recording holds, for every save time, the value the named processor state (given by an attribute and item path of any depth) had at that time, for scalar and array states of any shape, with its save frequency and export times exactly as requested; comparisons and summaries are the given function of those values. Later changes of the processor state never alter values already recorded.",
  ["inputs", "histories", "configurations"],
  "All attribute paths, state shapes, save frequencies, export times and processor histories.",
  "Tests record one or two fixed states.",
  ["diagnostics/core.py", "diagnostics/diagnostics.py"],
  [("attritemgetter, StateDiagnostic, InstantDiagnostic", "diagnostics/core.py"), ("RecordState, RecordFilter, StatePower, StateComparison, StateSummary", "diagnostics/diagnostics.py")],
  ["exported data"])
p("C22", "Simulators made from one setup are independent of the setup and of each other",
  "Creating and running a simulator never changes the setup it came from: arrays, source states, positions and paths of the setup stay as they were, so a second simulator created from it gives the same result as the first (propagation paths that are drawn at random apart). Changes made to the setup, or to the arrays passed to it, after a simulator is created do not change that simulator's arrays and paths.",
  ["histories", "configurations"],
  "All setups and all interleavings of creating, changing and running.",
  "Interleavings are unbounded; no test compares two simulators of one setup.",
  ["simulator.py", "array.py"],
  [("SimulatorSetup.create_simulator", "simulator.py"), ("ArrayCollection.setup_ir", "array.py")],
  ["results of two simulators"])
p("C23", "Frequency-domain paths are the transforms of the time-domain paths",
  "The frequency responses of all paths are given for every source and microphone pair with dimensions frequency, microphone, source, at the requested number of equally spaced frequencies up to half the sample rate, and each equals the discrete-time Fourier transform of the corresponding impulse response at that frequency. Impulse responses up to the requested number of frequencies are used in full (longer ones, as documented, with that many samples).",
  ["inputs", "configurations"],
  "All sets of arrays, impulse response lengths and numbers of frequencies.",
  "No test covers it.",
  ["array.py"],
  [("ArrayCollection.get_freq_paths", "array.py")], ["returned dictionary"])
p("C24", "Arrays represent the positions, groups and directivity they are given",
  "An array has one channel per given position, with the positions unchanged, and rejects malformed positions, duplicate names and incompatible directivity arguments instead of silently altering them. Lists of arrays (all, microphones, sources, free sources) contain each added array exactly once, in the order added and classified by its kind, and the groups of an array given as a list of position arrays partition its channels in order.",
  ["inputs", "configurations"],
  "All positions, array kinds, names, groups and orders of adding.",
  "Tests construct a few arrays.",
  ["array.py"],
  [("Array.__init__, set_groups, RegionArray, FreeSourceArray", "array.py"), ("ArrayCollection.add_array, mics, sources, free_sources, mic_src_combos, iter_paths", "array.py")],
  ["array attributes"])
p("C25", "Signal statistics are the stated function of exactly the recorded samples",
  "Signal power, power ratio and signal summary diagnostics give, at each sample in their save interval, the stated function (mean power over channels, ratio of smoothed powers, given summary) of exactly the signal samples up to that index, and preprocessing functions (decibel, clipping, smoothing) are applied sample by sample to exported data as documented. The values do not depend on chunk sizes or on other diagnostics.",
  ["inputs", "histories", "configurations"],
  "All signals, save intervals, smoothing lengths, block and chunk sizes.",
  "Tests only check that such diagnostics run.",
  ["diagnostics/diagnostics.py", "diagnostics/diagnosticscollection.py", "diagnostics/preprocessing.py"],
  [("SignalPower, SignalPowerRatio", "diagnostics/diagnostics.py"), ("SignalSummary, SignalPowerSpectrum", "diagnostics/diagnosticscollection.py"), ("clip, smooth, db_power", "diagnostics/preprocessing.py")],
  ["exported data"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
