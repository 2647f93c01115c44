"""Kinds of the package's public arguments and attributes, as its documentation states them (for gvg.effects)."""

ATTRS = {
    "ActiveTimeSeries": dict(_amp="array2", _dt="scalar", _nstacks="scalar", _delay="scalar", _multiple="scalar"),
    "Sensor1C": dict(_amp="array2", _dt="scalar", _nstacks="scalar", _delay="scalar", _multiple="scalar", _x="scalar", _y="scalar", _z="scalar"),
    "TimeSeries": dict(_amp="array2", _dt="scalar"),
    "Source": dict(_x="scalar", _y="scalar", _z="scalar"),
    "SourceWithSignal": dict(_x="scalar", _y="scalar", _z="scalar", _amp="array2", _dt="scalar"),
    "Array1D": dict(sensors="[Sensor1C]", source="Source"),
    "Array1DwSource": dict(sensors="[Sensor1C]", source="SourceWithSignal"),
    "Peaks": dict(_frequency="array2", _velocity="array2", _valid="array2", identifier="scalar", attrs="[scalar]",
                  _azimuth="array2", _ellipticity="array2", _noise="array2", _power="array2"),
    "PeaksSuite": dict(peaks="[Peaks]", ids="[scalar]"),
    "SignaltoNoiseRatio": dict(frequencies="array", snr="array"),
    "Statistics": dict(xx="array", mean="array", stddev="array", corr="array2"),
    "AbstractMaswWorkflow": dict(fnames="[scalar]", settings="{any}", map_x="callable", map_y="callable", array="Array1D", noise="Array1D",
                                 signal="Array1D", signal_start="scalar", signal_end="scalar", snr="SignaltoNoiseRatio"),
    "AbstractWavefieldTransform": dict(n="scalar", frequencies="array", velocities="array", power="array2", snr="array", snr_frequencies="array", array="Array1D"),
}
SUBS = {"AbstractMaswWorkflow": ("TimeDomainWorkflow", "SingleMaswWorkflow", "TimeDomainMaswWorkflow", "TimeDomainXcorrMaswWorkflow", "FrequencyDomainMaswWorkflow"),
        "AbstractWavefieldTransform": ("EmptyWavefieldTransform", "SlantStack", "PhaseShift", "FDBF", "FK")}


def attr_table():
    out = {}
    for c, d in ATTRS.items():
        for cc in (c,) + SUBS.get(c, ()):
            for a, t in d.items():
                out[(cc, a)] = t
    out[("TimeDomainXcorrMaswWorkflow", "fnames_src")] = "[scalar]"
    out[("TimeDomainXcorrMaswWorkflow", "src_channel")] = "scalar"
    return out


S = "scalar"
PARAMS = {
    (None, "amplitude"): "array2", (None, "dt"): S, (None, "nstacks"): S, (None, "delay"): S, (None, "x"): S, (None, "y"): S, (None, "z"): S,
    (None, "df"): S, (None, "start_time"): S, (None, "end_time"): S, (None, "timeseries"): "ActiveTimeSeries", (None, "activetimeseries"): "ActiveTimeSeries",
    (None, "sensor1c"): "Sensor1C", ("ActiveTimeSeries", "b"): "ActiveTimeSeries", ("ActiveTimeSeries", "a"): "ActiveTimeSeries",
    (None, "correlate_kwargs"): "{scalar}", (None, "exclude"): "[scalar]",
    ("ActiveTimeSeries", "other"): "ActiveTimeSeries", ("Sensor1C", "other"): "Sensor1C", ("Source", "other"): "Source", ("Array1D", "other"): "Array1D",
    ("Peaks", "other"): "Peaks", ("PeaksSuite", "other"): "PeaksSuite", ("EmptyWavefieldTransform", "other"): "EmptyWavefieldTransform",
    (None, "read_header"): S, (None, "format"): S, (None, "map_x"): "callable", (None, "map_y"): "callable",
    ("Source", "from_source", "other"): "Source", (None, "amp"): "array2",
    (None, "sensors"): "[Sensor1C]", (None, "source"): "Source", (None, "detrend"): S, (None, "normalize"): S, (None, "min_offset"): S, (None, "max_offset"): S,
    (None, "time_ax"): S, (None, "amplitude_detrend"): S, (None, "amplitude_normalization"): S, (None, "amplitude_scale"): S, (None, "position_normalization"): S,
    (None, "plot_kwargs"): "{any}", (None, "sensor_kwargs"): "{any}", (None, "source_kwargs"): "{any}", (None, "algorithm"): S, (None, "threshold"): S,
    (None, "waterfall_kwargs"): "{any}", (None, "window_kwargs"): "{any}", (None, "mute_location"): S, (None, "signal_start"): "[scalar]", (None, "signal_end"): "[scalar]",
    (None, "fnames"): "[scalar]", (None, "fname"): S, (None, "ftype"): S, (None, "obspy_read_kwargs"): "{any}", (None, "array1d"): "Array1D", (None, "index"): S,
    (None, "fnames_rec"): "[scalar]", (None, "fnames_src"): "[scalar]", (None, "src_channel"): S, (None, "vmin"): S, (None, "vmax"): S,
    (None, "settings"): "{{any}}", (None, "frequency"): "[array]", (None, "velocity"): "[array]", (None, "identifier"): S, (None, "peak_data"): S, (None, "wavetype"): S,
    (None, "frequencies"): "array", (None, "nmaxima"): S, (None, "xtype"): S, (None, "ytype"): S, (None, "xlims"): "[scalar]", (None, "ylims"): "[scalar]",
    (None, "limits"): "[scalar]", (None, "attr"): S, (None, "attribute"): S, (None, "bool_array"): "array2", (None, "append"): S, (None, "data_dict"): "{any}",
    ("PeaksSuite", "append", "peaks"): "Peaks", ("PeaksSuite", "__init__", "peaks"): "Peaks", ("PeaksSuite", "peaks"): "[Peaks]", (None, "peaks"): "Peaks", (None, "mask"): S,
    (None, "xs"): "array", (None, "ys"): "array", (None, "xx"): "array", (None, "dicts"): "[{any}]", (None, "peakssuites"): "[PeaksSuite]", (None, "peakssuite"): "PeaksSuite",
    (None, "resolution_limits"): "[any]", (None, "resolution_limits_plot_kwargs"): "{any}", (None, "margins"): S, (None, "ignore_corr"): S,
    (None, "drop_sample_if_fewer_count"): S, (None, "drop_observation_if_fewer_percent"): S, (None, "drop_sample_if_fewer_percent"): S, (None, "mean_substitution"): S,
    (None, "mean"): "array", (None, "stddev"): "array", (None, "corr"): "array2", (None, "errorbar_kwargs"): "{any}", (None, "data_matrix"): "array2",
    (None, "drop_kwargs"): "{scalar}", (None, "density_threshold"): S, (None, "replacement_attempts"): S, (None, "signal"): "Array1D", (None, "noise"): "Array1D",
    (None, "fmin"): S, (None, "fmax"): S, (None, "pad_snr"): S, (None, "df_snr"): S, (None, "snr"): "array", ("SignaltoNoiseRatio", "snr"): "array",
    (None, "velocities"): "array", (None, "power"): "array2", (None, "array"): "Array1D", (None, "by"): S, (None, "cmap"): S, (None, "normalization"): S, (None, "nearfield"): S,
    (None, "peak_kwargs"): "{any}", (None, "colorbar_kwargs"): "{any}", (None, "rasterize"): S, (None, "pmin"): S, (None, "pmax"): S, (None, "pn"): S, (None, "pspace"): S,
    (None, "multiple"): S, ("FDBF", "weighting"): S, (None, "frq_ids"): "array",
    (None, "p0"): "array2", (None, "pm"): "array2", (None, "covp0p0"): "array2", (None, "d0"): "array2", (None, "dm"): "array2", (None, "covd0d0"): "array2", (None, "dgdp"): "array2",
    (None, "version"): S, (None, "name"): S, (None, "time"): S, (None, "startend_fname"): S, (None, "network"): S, (None, "data_dir"): S, (None, "output_dir"): S, (None, "extension"): S,
    (None, "trim"): S, (None, "trim_begin"): S, (None, "trim_end"): S, (None, "mute"): S, (None, "method"): S, (None, "pad"): S, (None, "transform"): S,
    (None, "nvel"): S, (None, "vspace"): S, (None, "weighting"): S, (None, "steering"): S, (None, "noise_begin"): S, (None, "noise_end"): S, (None, "signal_begin"): S, (None, "signal_end"): "[scalar]",
    ("Masw", "signal_end"): S, ("Masw", "snr"): S, (None, "initial_adjustment"): S, (None, "initial_adjustment_message"): S, (None, "npts"): S, (None, "ask_to_continue"): S, (None, "ask_to_continue_message"): S,
    ("Statistics", "frequency"): "array", (None, "ncols"): S, (None, "tl_corner"): "[scalar]", (None, "br_corner"): "[scalar]", (None, "max_regions"): S,
    (None, "corr_matrix"): "array2", (None, "means"): "array", (None, "stddevs"): "array", (None, "ring"): S, (None, "component"): S, (None, "defaults"): "{any}",
    (None, "ax"): "external", (None, "fig"): "external", (None, "cax"): "external", ("Peaks", "__init__", "**kwargs"): "array2",
}

CLASSES = ("ActiveTimeSeries", "Sensor1C", "Source", "SourceWithSignal", "Array1D", "Array1DwSource", "Peaks", "PeaksSuite", "Statistics", "SignaltoNoiseRatio",
           "Masw", "MaswXcorr", "AbstractMaswWorkflow", "SingleMaswWorkflow", "TimeDomainMaswWorkflow", "TimeDomainXcorrMaswWorkflow", "FrequencyDomainMaswWorkflow",
           "EmptyWavefieldTransform", "SlantStack", "PhaseShift", "FDBF", "FK", "AbstractWavefieldTransform")
FUNCS = (("swprocess.interact", "ginput_session"), ("swprocess.inversion", "leastsquare_iterativealgorithm"), ("swprocess.inversion", "leastsquare_posterioricovmatrix"),
         ("swprocess.meta", "check_geopsy_version"), ("swprocess.regex", "get_peak_from_max"), ("swprocess.regex", "get_geopsy_version"), ("swprocess.regex", "get_wavetype"),
         ("swprocess.regex", "get_process_type"), ("swprocess.regex", "get_nmaxima"), ("swprocess.regex", "get_all"), ("swprocess.regex", "validate_wavetypes"),
         ("swprocess.utils", "extract_mseed"))
# public methods of those classes, as of the commit the properties were written for
API = {
    "TimeSeries": "detrend nsamples dt amplitude fs fnyq",
    "ActiveTimeSeries": "__init__ n_stacks nstacks delay df multiple time stack_append from_activetimeseries from_trace_seg2 from_trace trim zero_pad crosscorr crosscorr_shift from_cross_stack __eq__ __repr__ __str__",
    "Sensor1C": "__init__ x y z from_sensor1c from_activetimeseries from_trace __eq__",
    "Source": "__init__ x y z from_source __repr__ __eq__",
    "SourceWithSignal": "__init__",
    "Array1D": "__init__ timeseriesmatrix position offsets kres nchannels array_center_distance spacing trim trim_offsets zero_pad waterfall plot auto_pick_first_arrivals manual_pick_first_arrivals interactive_mute mute from_files from_array1d to_file is_similar __eq__ __getitem__",
    "Array1DwSource": "__init__ from_files xcorrelate",
    "Peaks": "__init__ frequency velocity azimuth ellipticity noise power slowness wavelength wavenumber extended_attrs plot reject_limits_outside reject_box_inside simplify_mpeaks to_json from_json from_dict from_max __eq__ __str__",
    "PeaksSuite": "__init__ append reject_limits_outside reject_box_inside calc_resolution_limits plot_resolution_limits plot interactive_trimming statistics to_array plot_statistics to_json from_dict from_json from_max from_peaks from_peakssuite __getitem__ __len__ __eq__",
    "Statistics": "__init__ from_peakssuite from_data_matrix",
    "SignaltoNoiseRatio": "__init__ from_array1ds",
    "Masw": "run create_settings_dict", "MaswXcorr": "run",
    "AbstractMaswWorkflow": "__init__ check trim_offsets detrend select_noise trim_time mute select_signal calculate_snr pad run __str__",
    "TimeDomainWorkflow": "run", "SingleMaswWorkflow": "run __str__", "TimeDomainMaswWorkflow": "__str__", "TimeDomainXcorrMaswWorkflow": "__init__ run __str__", "FrequencyDomainMaswWorkflow": "run __str__",
    "AbstractWavefieldTransform": "__init__ from_array normalize find_peak_power plot_snr plot",
    "EmptyWavefieldTransform": "__init__ from_array stack", "SlantStack": "slant_stack transform", "PhaseShift": "transform", "FDBF": "transform", "FK": "from_array",
}
