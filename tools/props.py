"""The property table: id, title, statement, quantifier, why tests cannot settle it, anchors."""

PROPS = []


def P(id, title, statement, over, forall, why, at, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), forall=forall, why=why, at=at, **kw))


A = "swprocess/activetimeseries.py"
S = "swprocess/sensor1c.py"
SRC = "swprocess/source.py"
R = "swprocess/array1d.py"
W = "swprocess/wavefieldtransforms.py"

P("C01", "Time-domain stacking is the weighted mean and only mixes compatible records",
  "Stacking one record onto another yields, sample by sample, the mean of the two weighted by the number of shots each already represents, and adds those numbers. "
  "Records that differ in time step, number of samples or delay, or sensors at another position, are rejected, and neither record changes when that happens.",
  "inputs histories", "all pairs of records and all orders of stacking",
  "The tests stack a few short records with equal weights; unequal weights and rejected stacks leave other samples and histories open.",
  [("stacking of records", A + ":ActiveTimeSeries.stack_append"), ("stackability test", A + ":ActiveTimeSeries._is_similar")])
P("C02", "Stacking dispersion images is the mean weighted by the number of images",
  "Stacking dispersion images one after another gives the plain mean of the individual images, whatever the empty image it started from contained. "
  "The number of images represented by the result is the sum of the numbers stacked, and the image stacked onto it is left alone.",
  "inputs histories", "all images and every sequence of stacking operations",
  "The tests stack two constant images; three or more with unequal content and weights are not reached.",
  [("running mean", W + ":EmptyWavefieldTransform.stack"), ("stack size", W + ":AbstractWavefieldTransform.__init__")])
P("C03", "A copy of a record, sensor, source or array equals its original and is separate",
  "Building a record, sensor, source or array from an existing one reproduces its samples, time step, delay, stack count, frequency-step multiple and positions. "
  "Later changes to the copy's samples do not show in the original.",
  "inputs histories", "all records, sensors and arrays, in any state reached by padding, trimming or stacking",
  "The tests copy fresh objects; copies made after padding, trimming or stacking are not compared field by field.",
  [("record copy", A + ":ActiveTimeSeries.from_activetimeseries"), ("sensor copy", S + ":Sensor1C.from_sensor1c"), ("array copy", R + ":Array1D.from_array1d")])
P("C04", "Receiver records are decoded from trace headers as the formats define",
  "A receiver's time step, delay, stack count and position equal the header fields of its format, with the coordinate scalar applied as the format defines: positive multiplies, negative divides, zero means one. "
  "An explicitly stated format wins over the one recorded in the trace, and an unknown format is rejected.",
  "inputs", "all header contents for the three formats",
  "The sample files contain one scalar sign each; the other signs and the mapping of each coordinate are never read by a test.",
  [("receiver header", S + ":Sensor1C.from_trace"), ("coordinate scalar", S + ":Sensor1C._from_trace_su")])
P("C05", "The source position is decoded from the trace headers as the formats define",
  "The position of the source equals the source coordinates stored with the first trace, with the coordinate scalar applied as the format defines and the user's coordinate maps applied to the matching axis. "
  "This holds for SU, SEGY and SEG2 and for any number of traces.",
  "inputs configurations", "all header contents, formats and coordinate maps",
  "Test files all put the source on the x axis with scalar one, so the y axis and the scalar are unexercised.",
  [("source from headers", R + ":Array1D.from_files")])
P("C06", "An array written to SU reads back with the same header information",
  "Writing an array stores in every trace the time step, delay, stack count, receiver position and source position in exactly the fields and units the reader takes them from. "
  "One trace is written for every sensor, in order, and the samples are those of the sensor.",
  "inputs", "all arrays, positions and stack counts",
  "The single round-trip test uses positions and stack counts for which several wrong encodings coincide.",
  [("writing SU", R + ":Array1D.to_file"), ("reading SU", S + ":Sensor1C.from_trace")])
P("C07", "Reading several files stacks them shot by shot, channel by channel",
  "Reading a list of files gives, for every channel, the weighted mean over the files of the traces at the same channel position, and the positions of the first file. "
  "Every file is read with the same coordinate maps, and files with another number of channels or another source position are rejected.",
  "inputs", "any number of files, channels and any coordinate maps",
  "Tests stack two identical or constant files with default maps, where pairing and mapping errors cancel.",
  [("reading files", R + ":Array1D.from_files"), ("stacking channels", A + ":ActiveTimeSeries.stack_append")])
P("C08", "An array's geometry follows from its receivers and source",
  "Sensors are kept in order of increasing position, offsets are the distances from the source, spacing is the constant distance between neighbours and is refused if it varies, and the source is known to lie on the near, far or inside of the array. "
  "Positions are reported relative to the first receiver on request.",
  "inputs", "all receiver and source positions in any order",
  "Tests use evenly spaced arrays with the source on either end; other orders and spacings remain open.",
  [("sorting and checks", R + ":Array1D.__init__"), ("offsets", R + ":Array1D.offsets"), ("spacing", R + ":Array1D.spacing"), ("source side", R + ":Array1D._source_inside")])
P("C09", "Each trace stays paired with its own receiver and offset",
  "The matrix of time series handed to the transforms has one row per sensor, ordered so that the offsets next to it increase, and row i holds the record of the sensor at offset i. "
  "This pairing holds whichever end of the array the source is on.",
  "inputs", "all arrays with the source at either end",
  "The tests check small arrays with one source side at a time and symmetric content.",
  [("traces and offsets", R + ":Array1D._flipped_tseries_and_offsets"), ("matrix", R + ":Array1D.timeseriesmatrix")])
P("C10", "Offset and time trimming keep exactly the right sensors and samples",
  "Trimming offsets keeps exactly the sensors whose distance from the source lies within the given limits, whichever side the source is on, and keeps the source. "
  "Trimming in time and zero padding act on every sensor alike.",
  "inputs", "all arrays, limits and source sides",
  "Tests keep a middle section of a short array from one side, so boundary sensors and the far side are open.",
  [("offset trimming", R + ":Array1D.trim_offsets"), ("time trimming", R + ":Array1D.trim"), ("padding", R + ":Array1D.zero_pad")])
P("C16", "Frequencies and velocities of transforms are the requested grid",
  "The frequencies of a dispersion image are the frequency bins of the record between the bins nearest the requested limits, stepping by the record's padding multiple. "
  "The trial velocities are linearly or logarithmically spaced between the requested limits, and the image has one row per velocity and one column per frequency.",
  "inputs configurations", "all records, padding states and settings",
  "Tests compare one or two images at one setting; padded records with other limits are not compared.",
  [("frequency axis", W + ":PhaseShift.transform"), ("velocity axis", W + ":AbstractWavefieldTransform._create_vector"), ("empty image", W + ":EmptyWavefieldTransform.from_array")])
P("C17", "Zero padding only appends zeros and reaches the requested frequency step",
  "Padding appends zeros after the recorded samples until the frequency step is the requested one or a whole fraction of it, and records that fraction so that the requested frequencies can be picked out again. "
  "The recorded samples, time step, delay and stack count stay as they were.",
  "inputs histories", "all records, requested steps and repeated padding",
  "Tests pad one record to one or two steps; the fraction is exercised for few lengths.",
  [("padding", A + ":ActiveTimeSeries.zero_pad"), ("frequency step", A + ":ActiveTimeSeries._df")])
P("C18", "The wavefield transforms evaluate their published definitions",
  "The phase-shift image is the magnitude of the trapezoidal sum over offsets of the amplitude-normalised spectrum shifted by each trial velocity; slant stacking is the spectrum of the slant stack; beamforming is the steering vector's quadratic form with the (weighted) cross-spectral matrix. "
  "The fk transform is beamforming with plane waves and no weighting, whatever the settings say.",
  "inputs configurations", "all arrays, velocities, weightings and steering vectors",
  "Tests compare the peaks of one synthetic gather, which several wrong kernels reproduce.",
  [("phase shift", W + ":PhaseShift.transform"), ("slant stack", W + ":SlantStack.transform"), ("beamforming", W + ":FDBF.transform"), ("fk", W + ":FK.from_array")])
P("C19", "Normalising and picking use the magnitude of the image and keep its axes",
  "Normalisation divides the magnitude of the image by its overall or per-frequency maximum, or leaves it, and the recorded factor restores the magnitudes. "
  "The picked velocity at each frequency is the trial velocity of greatest magnitude, also for complex-valued images.",
  "inputs", "all images, real or complex, and all options",
  "Tests use small real images for which value and magnitude agree.",
  [("normalisation", W + ":AbstractWavefieldTransform.normalize"), ("peak", W + ":AbstractWavefieldTransform.find_peak_power")])
P("C41", "Muting zeroes the samples outside the window and nothing else",
  "Muting multiplies every record by a window that is one between the two mute times, tapered as asked, and zero outside, counted from the time of the shot. "
  "It changes no other property of the array.",
  "inputs", "all mute times, delays and window shapes",
  "Tests mute one gather without delay, so the conversion from time to sample is not settled for delayed records.",
  [("muting", R + ":Array1D.mute")])

PK = "swprocess/peaks.py"
PS = "swprocess/peakssuite.py"
RX = "swprocess/regex.py"

P("C20", "Peaks keep what they were given, and a rejected peak never returns",
  "A set of peaks holds the given frequencies, velocities and further quantities unchanged, and every peak with a velocity starts as valid. "
  "Rejecting only ever makes peaks invalid: no later rejection brings a peak back, rejecting twice equals rejecting once, and the stored quantities never change.",
  "inputs histories", "all peaks and all sequences of rejections",
  "Tests run one rejection on a short list; sequences of rejections and two-dimensional peaks are not compared.",
  [("peaks", PK + ":Peaks.__init__"), ("rejection", PK + ":Peaks._reject")])
P("C21", "Rejecting outside limits keeps exactly the peaks within them",
  "After rejecting outside limits on a quantity, a peak is valid exactly when it was valid before and its value is neither below the lower nor above the upper limit; a missing limit does not restrict. "
  "This holds for frequency, velocity, slowness, wavelength and wavenumber, each computed from the stored frequency and velocity.",
  "inputs", "all peaks, quantities and pairs of limits",
  "Tests use a few values clear of the limits; values on a limit and missing limits stay open.",
  [("limits", PK + ":Peaks.reject_limits_outside")])
P("C22", "Rejecting inside a box removes exactly the peaks inside it",
  "After rejecting inside a box, a peak is invalid exactly when it was invalid before or both its quantities lie strictly between the box's limits, given in any order. "
  "Peaks outside in at least one direction are kept.",
  "inputs", "all peaks, boxes and pairs of quantities",
  "Tests draw one box in one pair of quantities; order of corners and boundaries are not settled.",
  [("box", PK + ":Peaks.reject_box_inside"), ("mask", PK + ":Peaks._reject_box_inside_bool_array")])
P("C23", "Operations on a suite reach every member in the same way",
  "Rejecting by limits or by a box on a suite of peaks has on every member the effect of the same call on that member alone, and changes neither the order nor the identifiers.",
  "inputs histories", "suites of any size and all arguments",
  "Tests use suites of two or three members, so a member skipped under another condition is not seen.",
  [("suite limits", PS + ":PeaksSuite.reject_limits_outside"), ("suite box", PS + ":PeaksSuite.reject_box_inside")])
P("C24", "A suite holds peaks with distinct identifiers, in the order added",
  "A suite's members and its list of identifiers correspond one to one and keep the order of addition, also when it is built from files or joined from suites. "
  "Something that is not peaks, or has an identifier already present, is refused and leaves the suite as it was.",
  "inputs histories", "all sequences of construction, appending and joining",
  "Tests append one duplicate; the state after a refusal and joined suites are not inspected.",
  [("append", PS + ":PeaksSuite.append"), ("joining", PS + ":PeaksSuite.from_peakssuite"), ("construction", PS + ":PeaksSuite.__init__")])
P("C25", "Peaks written to JSON read back equal, including what was rejected",
  "Writing peaks stores every quantity and the validity of every peak under the identifier, and reading it back restores the same values, validity and identifier, for one set, for suites and for several files. "
  "Files without validity are read as if nothing had been rejected.",
  "inputs histories", "all peaks, rejections, identifiers and numbers of files",
  "Tests round-trip fresh peaks; rejected peaks and further quantities are not compared after reading.",
  [("writing", PK + ":Peaks.to_json"), ("reading", PK + ":Peaks.from_dict"), ("suite reading", PS + ":PeaksSuite.from_json"), ("suite writing", PS + ":PeaksSuite.to_json")])
P("C26", "Appending to a JSON file keeps what the file already holds",
  "Appending peaks to an existing file writes back all entries already there together with the new one. "
  "An identifier that is already in the file is refused before the file is opened for writing.",
  "inputs histories", "all file contents and identifiers",
  "A test appends once; what happens to earlier entries and on refusal is not inspected.",
  [("appending", PK + ":Peaks.to_json")])
P("C27", "Shown quantities are those of the valid peaks and consistent with each other",
  "Frequency, velocity and further quantities report the valid peaks only and in the same order; slowness, wavelength and wavenumber follow from frequency and velocity by their definitions, also with rejected peaks.",
  "inputs", "all peaks and rejections",
  "Tests compare a few numbers without any rejected peak.",
  [("quantities", PK + ":Peaks.wavelength"), ("validity", PK + ":Peaks.frequency")])
P("C28", "Each column of a .max file becomes the quantity it stores",
  "From a text of maxima of one time window and wave type, frequency, slowness, azimuth, ellipticity, noise and power are taken from their own columns, slowness becomes velocity, and the k-th maximum at a frequency becomes entry k in that frequency's column. "
  "Values that are not given are determined from the text, and missing maxima are left as not-a-number.",
  "inputs configurations", "all texts, times, wave types and numbers of maxima",
  "Test files hold one or two windows with few maxima, where swapped columns or misplaced maxima can coincide.",
  [("parsing", PK + ":Peaks._parse_peaks"), ("patterns", RX + ":get_peak_from_max")])
P("C29", "A .max file of an unsupported geopsy version is refused before parsing",
  "Every way of reading a .max file checks the version recorded in it against the supported versions before any peak is read, for each of the files given, and refuses files of other versions.",
  "inputs configurations", "all file contents and numbers of files",
  "All test files but one have the supported version, and only one entry point is tried with another.",
  [("version check", "swprocess/meta.py:check_geopsy_version"), ("reading one", PK + ":Peaks.from_max"), ("reading several", PS + ":PeaksSuite.from_max")])
P("C30", "Patterns for .max files accept every well-formed line and no other",
  "The patterns that find peaks, wave types, process type, number of maxima and version in a .max file, and the ring limits in a SPAC log, match every well-formed line, put each column in its own group, and match no text of another shape. "
  "A given time or frequency is matched as a whole number, not as the beginning or end of a longer one.",
  "inputs", "all lines, numbers, times, frequencies and wave types",
  "Tests match a handful of lines; prefixes of longer numbers, signs and exponents are an infinite set.",
  [("peak line", RX + ":get_peak_from_max"), ("lines of a time", RX + ":get_all"), ("wave type", RX + ":get_wavetype"), ("wave names", RX + ":validate_wavetypes"), ("ring limits", RX + ":get_spac_ring")],
  tech="static analysis: language inclusion between the regular expressions in the source and reference languages (finite automata)")
P("C31", "Reading several .max files makes one set of peaks per window of each file",
  "Reading several files yields the sets of peaks of every time window of every file in order, each parsed from its own file with that file's wave type, frequencies and number of maxima, and identified by its window.",
  "inputs configurations", "any number of files and windows",
  "Tests read files that share their wave type and frequencies, so values leaking from one file to the next do not show.",
  [("several files", PS + ":PeaksSuite.from_max")])
P("C33", "Resolution limits are the same wavelengths in every pair of domains",
  "The two lines returned for a pair of limits describe the limiting wavelengths (or wavenumbers) exactly in the requested x and y quantities, in the order of the limits. "
  "Pairs that are not supported are refused.",
  "inputs configurations", "all limits, axes and pairs of quantities",
  "Only few of the pairs of domains are tested, with one number each.",
  [("resolution limits", PS + ":PeaksSuite.calc_resolution_limits")])
P("C37", "Equality compares every field and never fails on other objects",
  "Two sources, records, sensors, arrays, sets of peaks or suites are equal exactly when they are of the same kind and all their fields agree, in number and value: time step, stack count, delay, samples and position; source and every sensor in order; every quantity of the peaks. "
  "Comparing with another kind of object, or with different lengths, gives unequal.",
  "inputs", "all pairs of objects",
  "Tests vary a single field for one object; missing further quantities and other shapes remain.",
  [("peaks", PK + ":Peaks.__eq__"), ("suites", PS + ":PeaksSuite.__eq__"), ("sources", SRC + ":Source.__eq__"), ("records", A + ":ActiveTimeSeries.__eq__"), ("arrays", R + ":Array1D.__eq__")])
P("C45", "Reducing several peaks per frequency keeps the strongest valid one",
  "With several peaks per frequency, the value reported at a frequency is that of the valid peak of greatest power, and frequencies without a valid peak are left out. "
  "With one peak per frequency the valid values are reported as they are.",
  "inputs", "all two-dimensional peaks, powers and rejections",
  "One small example is tested; ties, rejected maxima and fully rejected frequencies are not.",
  [("reduction", PK + ":Peaks.simplify_mpeaks")])
MW = "swprocess/maswworkflows.py"
MA = "swprocess/masw.py"
REG = "swprocess/register.py"
P("C12", "Each MASW workflow applies its steps in the documented order",
  "Every workflow reads the records, refuses a source inside the array, limits the offsets, detrends, copies the noise window, trims, mutes, copies the signal window, computes the signal-to-noise ratio, pads and only then transforms, with each step given its own settings and skipped only when switched off. "
  "The single-file workflow processes the first file alone, the cross-correlation workflow correlates before padding, and the frequency-domain workflow transforms and stacks each file with the windows chosen for the first.",
  "inputs configurations", "all settings and files; the frequency-domain workflow for one and for two files",
  "Tests run a few combinations of settings and compare final images only roughly; steps that commute on the test records can be swapped or dropped unnoticed.",
  [("steps", MW + ":TimeDomainWorkflow.run"), ("single", MW + ":SingleMaswWorkflow.run"), ("frequency domain", MW + ":FrequencyDomainMaswWorkflow.run"),
   ("cross-correlation", MW + ":TimeDomainXcorrMaswWorkflow.run")])
P("C14", "Every settings argument ends up in its own entry and steers its own step",
  "The settings dictionary holds each argument of its builder under its own entry, converted to its own type, and each default is the documented one. "
  "Run through a workflow, every entry reaches exactly the step it is named for.",
  "inputs configurations", "all argument values",
  "Tests compare one dictionary of defaults; swapped or unused arguments with equal values do not show.",
  [("builder", MA + ":Masw.create_settings_dict"), ("consumption", MW + ":TimeDomainWorkflow.run")])
P("C15", "Workflow and transform names select the class they name",
  "Every registered name of a transform or workflow yields its own class, and an unknown name is refused. "
  "A run uses the workflow named in its settings with the given files and coordinate maps, and the cross-correlation run accepts only its own workflow.",
  "inputs configurations", "all names and settings",
  "Tests run two of the workflows and never look up every name.",
  [("transforms", REG + ":WavefieldTransformRegistry"), ("workflows", REG + ":MaswWorkflowRegistry"), ("run", MA + ":Masw.run"), ("cross-correlation run", MA + ":MaswXcorr.run")])
P("C32", "Statistics of a suite use exactly the values that are present",
  "Every set of peaks is resampled by linear interpolation at the requested positions, without extrapolation; positions and observations with too few values are dropped, in the order that loses less; mean, standard deviation and correlation are those of the remaining values, ignoring missing ones. "
  "Fewer than three sets are refused.",
  "inputs configurations", "all suites, positions and thresholds",
  "Tests use complete or hand-made matrices where dropping order, thresholds and missing values hardly matter.",
  [("resampling", PS + ":PeaksSuite.to_array"), ("statistics", PS + ":PeaksSuite.statistics"), ("dropping", PS + ":PeaksSuite._drop"), ("statistics of a matrix", "swprocess/stats.py:Statistics._drop")])
P("C51", "Statistics of incomplete observations keep the moments of what is present",
  "Statistics from a matrix of observations report the positions left after dropping, the mean and standard deviation of the values present there, and a correlation coefficient for every pair of those positions. "
  "Missing values are drawn anew, each from its own column's mean and deviation, only while correlating; a filling that shifts mean or spread is discarded and retried, and too many attempts are refused. "
  "Correlations not covered by a dense region follow an exponential decay with log distance fitted to those known in the same row.",
  "inputs configurations", "all matrices, positions, thresholds, numbers of attempts and generators",
  "Tests check the helpers on small hand-made matrices; the assembled statistics of an incomplete matrix were never computed (two defects there were found and repaired).",
  [("statistics", "swprocess/stats.py:Statistics.from_data_matrix"), ("dense regions", "swprocess/stats.py:Statistics._identify_regions"), ("filling", "swprocess/stats.py:Statistics._fill_data"),
   ("correlations", "swprocess/stats.py:Statistics._fill_corr"), ("sorting", "swprocess/stats.py:Statistics._sort"), ("of a suite", "swprocess/stats.py:Statistics.from_peakssuite")])
P("C40", "Least-squares inversion follows Tarantola and Valette (1982)",
  "One step of the inversion yields p0 + C Gt (S + G C Gt)^-1 (d0 - dm + G (pm - p0)), and the posterior covariance is C - C Gt (S + G C Gt)^-1 G C. "
  "Both hold for positional and for keyword arguments.",
  "inputs", "all parameter vectors, data vectors and covariance matrices",
  "The test inverts one small system with nearly diagonal matrices, for which transposes and signs can be confused.",
  [("step", "swprocess/inversion.py:leastsquare_iterativealgorithm"), ("posterior", "swprocess/inversion.py:leastsquare_posterioricovmatrix")])
P("C43", "A record keeps what it is given and refuses impossible values",
  "A record or sensor reports the samples, time step, stack count, delay and position it was created with, by hand or from a trace, with time running from the delay in steps of the time step. "
  "Stack counts below one and positive delays are refused.",
  "inputs", "all samples, time steps, stack counts, delays and positions",
  "Tests create a few records; most combinations of stack count, delay and defaults are not compared.",
  [("record", A + ":ActiveTimeSeries.__init__"), ("checks", A + ":ActiveTimeSeries._check_input"), ("sensor", S + ":Sensor1C.__init__"), ("source", SRC + ":Source.__init__"), ("time", A + ":ActiveTimeSeries.time")])
P("C44", "The signal-to-noise ratio compares the spectra bin by bin",
  "The ratio is the mean magnitude over the channels of the signal's spectrum divided by that of the noise, at the frequencies of the padded records nearest to and between the limits, at the requested frequency step. "
  "Signal and noise windows of different length are refused.",
  "inputs configurations", "all arrays, limits and frequency steps",
  "The test compares one ratio for sine records; selection of frequencies and channels is not otherwise examined.",
  [("ratio", "swprocess/snr.py:SignaltoNoiseRatio.from_array1ds")])
P("C48", "Cross-correlation shifts a record by the lag of its largest correlation",
  "Correlating two records gives the full correlation of their samples, after checking that time step, samples, stacks and delay agree (except what the caller excludes). "
  "Shifting delays the second record by the lag of the largest correlation, filling with zeros; stacking with cross-correlation adds the shifted record to a copy. "
  "Cross-correlating an array with its source replaces every record by its correlation with the source signal from the lag of the shortest offset at the largest velocity to that of the longest offset at the smallest velocity.",
  "inputs histories", "all pairs of similar records, lags of either sign, arrays and velocities",
  "The tests shift one sine by one lag; lags of the other sign, zero lag and the cross-correlation of an array with its source are not examined.",
  [("correlation", A + ":ActiveTimeSeries.crosscorr"), ("shift", A + ":ActiveTimeSeries.crosscorr_shift"), ("array", R + ":Array1DwSource.xcorrelate"), ("source signal", R + ":Array1DwSource.from_files")])
P("C50", "Extracting time blocks reads each hour of a block and writes the span asked for",
  "Extracting miniSEED data reads, for every row of the table, the hourly files of its station from the hour of the start through the hour of the end in order, once each, merges them, trims them to start and end to the second, "
  "fills masked samples, creates the row's folder if it does not exist and writes one file there named after network, station, array and extension. "
  "A block that ends before it starts and a table that cannot be read are refused.",
  "inputs configurations", "all tables, spans (over midnight and month ends too), folders and extensions",
  "The test extracts three blocks of one station without gaps on full minutes; gaps, seconds, stations of two digits and existing folders are not examined.",
  [("extraction", "swprocess/utils.py:extract_mseed")])
P("C13", "Plots draw the data they are asked for, each at its own place",
  "A waterfall draws every record, detrended and normalised as asked, scaled and shifted to its own receiver position, against time; a schematic every receiver and the source; an image the power at its frequencies and velocities with the picked peaks; the ratio, peaks and suites their values restricted to what is valid or to the mask given. "
  "What the caller sets for lines and markers wins over the defaults.",
  "inputs configurations", "all arrays, images, peaks, suites, axes quantities and plot options",
  "Tests do not look at what is drawn; a plot that misplaces or mixes up data still passes.",
  [("waterfall", R + ":Array1D.waterfall"), ("schematic", R + ":Array1D.plot"), ("traces", R + ":Array1D.timeseriesmatrix"), ("image", W + ":AbstractWavefieldTransform.plot"),
   ("ratio", W + ":AbstractWavefieldTransform.plot_snr"), ("peaks", "swprocess/peaks.py:Peaks._plot"), ("suite", PS + ":PeaksSuite.plot"), ("resolution limits", PS + ":PeaksSuite.plot_resolution_limits")])
P("C36", "Names of options that do not exist are refused",
  "Only the documented names are accepted for wave types, image normalisations, the choice of peaks of an image, velocity spacings, output file types, the time axis of a waterfall, first-arrival algorithms, SPAC components and the cross-correlation workflow. "
  "Any other name raises an error instead of falling back on a default, for every way of calling.",
  "inputs configurations", "all names, known and unknown",
  "Tests try one wrong name here and there; a name that is quietly accepted, or a documented one that is refused, goes unnoticed.",
  [("wave types", "swprocess/regex.py:validate_wavetypes"), ("normalisation", W + ":AbstractWavefieldTransform.normalize"), ("peaks of an image", W + ":AbstractWavefieldTransform.find_peak_power"),
   ("velocity spacing", W + ":AbstractWavefieldTransform._create_vector"), ("file types", R + ":Array1D.to_file"), ("picking", R + ":Array1D.auto_pick_first_arrivals")])
P("C39", "A refused operation leaves the object as it was",
  "When padding, trimming in time or by offset, stacking, normalising or plotting an image, appending to a suite, plotting a suite or writing an array is refused with an error because of its arguments, the record, array, image or suite is exactly as before the call, and nothing has been drawn or written.",
  "inputs histories", "all objects and all refused arguments",
  "Tests check that the error is raised, not what is left behind; damage shows only in a later operation on the same object.",
  [("padding", A + ":ActiveTimeSeries.zero_pad"), ("trimming", A + ":ActiveTimeSeries.trim"), ("offsets", R + ":Array1D.trim_offsets"), ("normalising", W + ":AbstractWavefieldTransform.normalize"),
   ("appending", PS + ":PeaksSuite.append")])
P("C46", "Picked points belong to the right record, axis and time",
  "Automatic first arrivals give, for every receiver in order, its position and the first time at which its detrended, normalised record departs from the mean of its first ten samples by more than the threshold. "
  "Points picked by hand are returned as (distance, time) whichever axis shows time, and the window picked for muting is handed to the mute and returned as the same pairs; only the sides asked for are picked.",
  "inputs configurations", "all arrays, thresholds, orientations and sides",
  "Interactive functions are tested with mocks of one orientation; pairing of coordinates with axes is not settled by that.",
  [("first arrivals", R + ":Array1D._pick_on_threshold"), ("manual picks", R + ":Array1D.manual_pick_first_arrivals"), ("interactive mute", R + ":Array1D.interactive_mute")])
P("C34", "Picked velocities are close to the true phase velocities",
  "For a record of a plane wave of known phase velocity every transform shows its maximum power within one velocity step of that velocity at every frequency that the array resolves.",
  "inputs", "all velocities, arrays and frequencies within the resolution of the array",
  "The tests compare images with stored ones for one array.",
  [("transforms", W + ":AbstractWavefieldTransform.from_array")],
  na="A bound on a numerical error over all records: it needs estimates of floating-point sums and of the side lobes of the array, which no static analysis of the source in reach provides. C18 decides that the transforms evaluate their published formulas.")
P("C38", "Random replacement of missing values reaches the target correlation",
  "Filling missing values in the statistics ends with correlations between columns within the requested tolerance of those of the values present.",
  "inputs schedules", "all incomplete data and all random sequences",
  "One test runs one example with a fixed generator.",
  [("filling", "swprocess/stats.py:Statistics._fill_data")],
  na="Convergence of a randomised search is a statement about runtime quantities (random draws, number of iterations) that the source does not bound; deciding it means running it.")
P("C49", "Interactive trimming rejects exactly the boxes that were confirmed",
  "Boxes drawn since the last pause are rejected when the user continues or quits and forgotten when the user undoes.",
  "inputs histories", "all sequences of boxes and decisions",
  "Tests of the loop would have to script a user.",
  [("trimming", PS + ":PeaksSuite.interactive_trimming"), ("box", PS + ":PeaksSuite._draw_box")],
  na="The loop runs over an unbounded sequence of user events, with its state in drawing objects; the analysis has no summary for it, and rules on the shape of the loop would report edits that keep the behaviour. What one box rejects is decided (C22).")
EFF = "static analysis: interprocedural points-to and effect analysis over the syntax tree"
P("C11", "Functions do not change the objects passed to them",
  "Calling any public function or method leaves every array, list, dictionary and object passed as an argument as it was: stacking, comparing, copying, correlating, transforming, computing ratios or statistics, plotting with keyword dictionaries and reading from dictionaries never write to an argument. "
  "Only the object a method is called on may change.",
  "inputs histories", "all public functions, arguments and option combinations",
  "Tests rarely look at an argument after the call, and a write may happen for one option or kind of argument only.",
  [("stacking", A + ":ActiveTimeSeries.stack_append"), ("ratio", "swprocess/snr.py:SignaltoNoiseRatio.from_array1ds"), ("fk settings", W + ":FK.from_array"), ("peaks from a dictionary", "swprocess/peaks.py:Peaks.from_dict")], tech=EFF)
P("C35", "Results do not depend on earlier calls or on the surroundings",
  "No public function keeps state between calls in module variables, class attributes or default values, changes process-wide settings, or reads the clock, a random generator or environment variables. "
  "The only exception is the random replacement of missing values in the statistics of incomplete data, which draws from its own generator.",
  "histories configurations", "all public functions and all sequences of calls in one process",
  "A test calls a function once or twice in a fresh process; leaking state shows only for particular sequences of calls.",
  [("default arguments", R + ":Array1D.from_files"), ("random replacement", "swprocess/stats.py:Statistics._fill_data"), ("registries", "swprocess/register.py:AbstractRegistry.register")], tech=EFF)
P("C42", "New objects keep their own arrays and lists",
  "A record, sensor, array, set of peaks, suite, ratio or statistics object built by hand, from a trace, a dictionary or other objects shares no array, list or dictionary with what it was built from, and no two objects share one through a default. "
  "Writing into the original data later does not change the object (sensors, sources and peaks themselves are held by reference).",
  "inputs histories", "all constructors and loaders, all kinds of input data",
  "Tests build objects from literals that nobody changes afterwards.",
  [("peaks", "swprocess/peaks.py:Peaks.__init__"), ("suite", "swprocess/peakssuite.py:PeaksSuite.from_peaks"), ("array", R + ":Array1D.__init__"), ("statistics", "swprocess/stats.py:Statistics.__init__")],
  tech="static analysis: interprocedural points-to analysis over the syntax tree")
P("C47", "Queries change nothing, and an operation changes only what it is for",
  "Reading a property, comparing, printing, indexing, plotting, picking arrivals, computing statistics and writing to a file change nothing in the object or in what it holds. "
  "An operation that works in place changes only what it is for: trimming the samples and the delay, padding the samples and the multiple, muting and detrending the samples, rejecting the validity of peaks, trimming offsets the list of sensors, normalising (also before a plot) the power of an image.",
  "inputs histories", "all public methods of all objects",
  "Tests check the value a query returns, not the object afterwards; a query that alters it shows only in a later operation.",
  [("samples as a matrix", R + ":Array1D.timeseriesmatrix"), ("waterfall", R + ":Array1D.waterfall"), ("statistics", "swprocess/peakssuite.py:PeaksSuite.statistics"), ("first arrivals", R + ":Array1D._pick_on_threshold")], tech=EFF)
