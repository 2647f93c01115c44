"""For each property: what the drivers compare, against what, within which bounds."""
HOW = {
"C01": "`ActiveTimeSeries.stack_append` and `Sensor1C.stack` on two symbolic records: samples, stack count and other fields after the call against (a*n1+b*n2)/(n1+n2); the condition of refusal against the four compatibility fields; both records unchanged when refused. All lengths and counts; no bound.",
"C02": "`EmptyWavefieldTransform.stack` applied once, twice and three times to symbolic images (running mean with counts), against the closed weighted mean; the stacked image and its count unchanged. Longer sequences follow by induction from the single step, which is compared for a receiver in any state.",
"C03": "`from_activetimeseries`, `from_sensor1c`, `from_source`, `from_array1d` on objects with every private field symbolic: all public quantities of the copy equal the original's; separation is decided on the heap model (the copy's array is a fresh allocation).",
"C04": "`Sensor1C.from_trace` for SU, SEGY, SEG2, a stated format, and an unknown one, over a symbolic trace (header fields are uninterpreted reads); oracle: SEG-Y rev1/SU/SEG2 definitions of the scalar and units, transcribed in the spec.",
"C05": "`Array1D.from_files` source position for the three formats over symbolic traces and coordinate maps (maps are uninterpreted functions).",
"C06": "`Array1D.to_file`: every header store of every trace (one map over the sensors) against the fields the reader of C04 consumes; the trace list in sensor order, samples of the sensor.",
"C07": "`Array1D.from_files` for any number of files (loop summary as a fold over files and channels), plus two- and three-file drivers in the three formats; raise condition compared for two files.",
"C08": "`Array1D.__init__`, `offsets`, `spacing`, `_source_inside`, `position` for a symbolic list of sensors; order as `sorted(key=x)`, distances as |x - xs|, spacing as constant difference.",
"C09": "`_flipped_tseries_and_offsets` and `timeseriesmatrix`: row i against the sensor at offset i for both source sides, for symbolic sensor lists.",
"C10": "`trim_offsets` (filter over sensors by |offset|, both sides), `trim`, `zero_pad` of the array (map over the sensors).",
"C12": "Each registered workflow's `run` with the steps of the array, transform and SNR classes as opaque effects: the sequence of calls, their arguments and their conditions against the documented procedure; order compared pairwise for effects that do not commute. Frequency-domain workflow decided for one and two files (unrolled); longer lists repeat the two-file step.",
"C14": "`Masw.create_settings_dict` with all arguments symbolic, then with none; and the workflow's consumption of each entry.",
"C15": "Registries' `create_class`/`create_instance` for every name and for unknown ones; `Masw.run`, `MaswXcorr.run`.",
"C16": "Frequency vector and velocity vector of each transform and of the empty image, over symbolic records, padding multiples and settings.",
"C17": "`ActiveTimeSeries.zero_pad` once and again, `_df`, refusal of impossible steps; oracle: appended zeros and integer division of steps.",
"C18": "`PhaseShift.transform`, `SlantStack`, `FDBF` (steering plane/cylindrical, weighting none/sqrt/invamp), `FK`: entry (i,j) of the image as a term in records, offsets, frequency and velocity against Park et al. 1998, McMechan & Yedlin 1981, Zywicki & Rix 2005 as transcribed. FFT itself is uninterpreted.",
"C19": "`normalize`, repeated normalisation, `find_peak_power`: over real and complex images (|.| must be taken).",
"C41": "`Array1D.mute`: the window of each record as a concatenation of zeros, tapers, ones, indices from the times of the record.",
"C20": "`Peaks.__init__` and `_reject`: validity after any sequence is the conjunction of the keeps; stored quantities unchanged.",
"C21": "`reject_limits_outside` for every quantity, limit None or number; element-wise condition compared.",
"C22": "`reject_box_inside` and its mask in two pairs of domains; corner order by min/max.",
"C23": "Suite versions of C21/C22: a loop over all members with the same arguments.",
"C24": "`PeaksSuite.__init__`, `append`, `from_peakssuite`: member list, identifier list, refusal and state after refusal.",
"C25": "`to_json`, `from_dict`, `from_json` of both classes; json.dump/json.load are treated as inverse; the dictionary written is compared with the one read.",
"C26": "`to_json(append=True)`: effects `open(...,'w')` and `json.dump` with the merged dictionary, and the refusal condition before any write.",
"C27": "Every shown quantity against stored frequency/velocity restricted to validity.",
"C28": "`Peaks._parse_peaks` with the text symbolic: the matches are an uninterpreted list of groups, column -> quantity as documented in geopsy's .max header; default values; padding with NaN.",
"C29": "Every reader: effect `check_geopsy_version` (with the text of the same file) before any parsing effect; two-file driver for several files.",
"C30": "Language inclusion, see 1.5 (decides all strings).",
"C31": "`PeaksSuite.from_max` for one and two files, each with any number of windows: arguments of each parse come from the same file.",
"C33": "`calc_resolution_limits` for every supported pair and for unsupported ones.",
"C37": "`__eq__` of Source, ActiveTimeSeries, Sensor1C, Array1D, Peaks, PeaksSuite (and `is_similar`) against the conjunction over all fields, incl. other types, other lengths, missing extra quantities.",
"C45": "`simplify_mpeaks` over symbolic two-dimensional peaks: argmax of valid power per column.",
"C32": "`to_array`, `statistics`, `_drop` (both orders and defaults), `Statistics` helpers; interpolation, mean and standard deviation are uninterpreted library functions whose arguments are compared. The random replacement of missing values is not decided (convergence of a random iteration).",
"C40": "The matrix expressions, non-commutative products kept in order; transposes and inverses normalised; `named` by keyword.",
"C43": "Constructors and properties of ActiveTimeSeries, Sensor1C, Source.",
"C44": "`SignaltoNoiseRatio.from_array1ds` and its helpers; rfft uninterpreted.",
"C48": "`crosscorr`, `crosscorr_shift`, `from_cross_stack`, `xcorrelate`, `Array1DwSource.from_files`; `scipy.signal.correlate` uninterpreted; lag of either sign and zero split into cases (`abs` resolved by the sign known in the case). The lag conventions are the code's (index of the maximum + 1 - number of samples).",
"C51": "`from_data_matrix` with its helpers uninterpreted and two attempts (the default ten once more, against explicit defaults): the retry loop unrolled, the loops over the regions as state machines over the matrix, refusal included. Each helper against its own reference: stores through rows, columns and slices are stores into the matrix; loops over a matrix that its body changes read the matrix as it then is; random draws counted as effects, one per missing value. A loop that stops depending on what it carries is kept whole (start, step and condition), so equal means equal step by step; another way of carrying the state is UNDECIDED.",
"C50": "`extract_mseed` with the row symbolic: the loop over the hours counted in steps of `timedelta(hours=1)` from start to end inclusive (a loop counted in another unit is UNDECIDED), the text of each file name part by part (padding included), the effects merge, trim, fill, mkdir, write with their arguments and order. `obspy` and `pandas` uninterpreted; a path and its text are the same name.",
"C11": "`gvg/effects.py`: abstract objects for arguments and access paths, allocation sites, module variables, class attributes and default values; flow-sensitive statements, strong updates where the object is unique, loops to a fixed point, calls inlined along the package's call graph (context-sensitive). Kinds of arguments and attributes come from the documented table `gvg/swtypes.py` (frozen). One obligation per public function or method, inherited ones included; a write that reaches an argument other than the receiver is reported with the statement. A write that only may be in place (operator on an object of unknown kind) is UNDECIDED. Library functions are assumed pure except the listed mutators, `out=`, and in-place methods.",
"C35": "Same analysis: writes to module variables, class attributes and default values, uses of process-wide setters (outside a `with` that restores them) and of clocks, generators, environment and directory order; module bodies are scanned as well. Only the three statistics entry points may use `numpy.random.default_rng`.",
"C42": "Same points-to graph, read after the call: from a new object, nothing of kind array, list or dictionary that belongs to an argument, a default value, a class or a module may be reachable. Arrays copy by `numpy.array`, selections, arithmetic; views and `asarray` keep the alias.",
"C47": "Same effects, those on the receiver: compared with a frozen table of frame conditions per method. A write to an attribute that the table of kinds does not know (a new private cache) is UNDECIDED.",
"C13": "Effects `ax.plot` and `ax.contourf` (data arguments, in order, with the condition under which they are drawn; loops over sensors and peaks summarised) compared with a reference that draws directly; keyword arguments compared in the two drivers on line styles. What matplotlib does with them is out of scope.",
"C36": "One driver per option with the name symbolic: the exact condition of the error is compared (the complement of the documented names).",
"C39": "Drivers catch the error and return the state: it must equal the state at entry whenever the refusal condition (taken from C01, C10, C17, C19, C24) holds; effects (draw, write) must not happen under it. Refusals from inside libraries other than sigpropy's trim are not modelled; operations on several members are covered where the refusal is the same for all members.",
"C46": "`_pick_on_threshold` per receiver against the definition; `ginput_session` and `waterfall` uninterpreted (what the user clicks), the pairs returned and handed to `mute` compared for both orientations and all sides. The interactive trimming loop itself is not decided (a loop over user decisions without a summary).",
}
