"""The order of processing steps in each MASW workflow."""
from swprocess.array1d import Array1D, Array1DwSource
from swprocess.snr import SignaltoNoiseRatio
from swprocess.register import WavefieldTransformRegistry
from swprocess.maswworkflows import SingleMaswWorkflow, TimeDomainMaswWorkflow, TimeDomainXcorrMaswWorkflow, FrequencyDomainMaswWorkflow

OPTIONS = {"*": {"no_inline": ("Array1D.from_files", "Array1DwSource.from_files", "Array1D.from_array1d", "Array1D.trim", "Array1D.trim_offsets",
                               "Array1D.mute", "Array1D.interactive_mute", "Array1D.zero_pad", "Array1D._source_inside", "Array1D.is_similar",
                               "SignaltoNoiseRatio.from_array1ds", "TimeSeries.detrend", "Array1DwSource.xcorrelate", "AbstractRegistry.create_class"),
                 "ret_types": {"Array1D.from_files": "Array1D", "Array1DwSource.from_files": "Array1DwSource", "Array1D.from_array1d": "Array1D",
                               "SignaltoNoiseRatio.from_array1ds": "SignaltoNoiseRatio"},
                 "effects": ["call:*", "mcall:*", "setattr:*", "!call:*.create_class"],
                 "order": ["call:*", "mcall:*", "!call:*.create_class"],
                 "commute": ["detrend|trim_offsets"]}}


def steps(a, settings, shared):
    """one record after reading: the noise and signal windows and the mute are decided once"""
    if a._source_inside:
        raise ValueError("source inside")
    pre, snr = settings["pre-processing"], settings["signal-to-noise"]
    a.trim_offsets(pre["offsets"]["min"], pre["offsets"]["max"])
    for s in a.sensors:
        s.detrend()
    if snr["perform"] and shared["noise"] is None:
        shared["noise"] = Array1D.from_array1d(a)
        shared["noise"].trim(snr["noise"]["begin"], snr["noise"]["end"])
    if pre["trim"]["apply"]:
        a.trim(pre["trim"]["begin"], pre["trim"]["end"])
    if pre["mute"]["apply"]:
        shape = pre["mute"].get("window_kwargs")
        if shared["start"] is not None or shared["end"] is not None:
            a.mute(signal_start=shared["start"], signal_end=shared["end"], window_kwargs=shape or None)
        else:
            if pre["mute"]["method"] != "interactive":
                raise KeyError("method")
            if shape:
                shared["start"], shared["end"] = a.interactive_mute(window_kwargs=shape)
            else:
                shared["start"], shared["end"] = a.interactive_mute()
    if snr["perform"] and shared["signal"] is None:
        shared["signal"] = Array1D.from_array1d(a)
        shared["signal"].trim(snr["signal"]["begin"], snr["signal"]["end"])


def ratio(noise, signal, settings):
    p = settings["signal-to-noise"]["pad"]
    q = settings["processing"]
    return SignaltoNoiseRatio.from_array1ds(signal, noise, fmin=q["fmin"], fmax=q["fmax"], pad_snr=p["apply"], df_snr=p["df"])


def pad(a, settings):
    p = settings["pre-processing"]["pad"]
    if p["apply"]:
        a.zero_pad(p["df"])


def complete(a, settings, correlate):
    """from the record as read to its dispersion image"""
    shared = {"start": None, "end": None, "noise": None, "signal": None}
    steps(a, settings, shared)
    q = settings["processing"]
    snr = settings["signal-to-noise"]["perform"]
    r = ratio(shared["noise"], shared["signal"], settings) if snr else None
    if correlate:
        a.xcorrelate(q["vmin"], q["vmax"])
    pad(a, settings)
    t = WavefieldTransformRegistry.create_class(q["transform"]).from_array(array=a, settings=q)
    t.array = a
    if snr:
        t.snr = r.snr
        t.snr_frequencies = r.frequencies
    return t


def impl_time(fnames, settings, map_x, map_y):
    return TimeDomainMaswWorkflow(fnames=fnames, settings=settings, map_x=map_x, map_y=map_y).run()


def spec_time(fnames, settings, map_x, map_y):
    a = Array1D.from_files(fnames, map_x=map_x, map_y=map_y)
    return complete(a, settings, False)


def impl_single(fnames, settings, map_x, map_y):
    return SingleMaswWorkflow(fnames=fnames, settings=settings, map_x=map_x, map_y=map_y).run()


def spec_single(fnames, settings, map_x, map_y):
    if not isinstance(fnames, str) and len(fnames) != 1:
        fnames = fnames[0]
    a = Array1D.from_files(fnames, map_x=map_x, map_y=map_y)
    return complete(a, settings, False)


def impl_xcorr(fnames_rec, fnames_src, channel, settings, map_x, map_y):
    return TimeDomainXcorrMaswWorkflow(fnames_rec=fnames_rec, fnames_src=fnames_src, src_channel=channel, settings=settings, map_x=map_x, map_y=map_y).run()


def spec_xcorr(fnames_rec, fnames_src, channel, settings, map_x, map_y):
    a = Array1DwSource.from_files(fnames_rec, fnames_src, channel, map_x=map_x, map_y=map_y)
    a.trim(0, max(a.sensors[0].time))
    a.source.trim(0, max(a.source.time))
    return complete(a, settings, True)


def reference_freq(names, settings, map_x, map_y):
    pre, q = settings["pre-processing"], settings["processing"]
    snr = settings["signal-to-noise"]["perform"]
    first = Array1D.from_files(names[0], map_x=map_x, map_y=map_y)
    for s in first.sensors:
        s.detrend()
    if pre["trim"]["apply"]:
        first.trim(pre["trim"]["begin"], pre["trim"]["end"])
    pad(first, settings)
    total = WavefieldTransformRegistry.create_class("empty").from_array(array=first, settings=q)
    kind = WavefieldTransformRegistry.create_class(q["transform"])
    shared = {"start": None, "end": None, "noise": None, "signal": None}
    for name in names:
        a = Array1D.from_files(name, map_x=map_x, map_y=map_y)
        if not a.is_similar(first):
            raise ValueError("another array")
        steps(a, settings, shared)
        pad(a, settings)
        total.stack(kind.from_array(array=a, settings=q))
    total.array = a
    if snr:
        r = ratio(shared["noise"], shared["signal"], settings)
        total.snr = r.snr
        total.snr_frequencies = r.frequencies
    return total


def impl_freq_text(name: "str", settings, map_x, map_y):
    return FrequencyDomainMaswWorkflow(fnames=name, settings=settings, map_x=map_x, map_y=map_y).run()


def spec_freq_text(name: "str", settings, map_x, map_y):
    return reference_freq([name], settings, map_x, map_y)


def impl_freq(first: "str", second: "str", settings, map_x, map_y):
    return FrequencyDomainMaswWorkflow(fnames=[first, second], settings=settings, map_x=map_x, map_y=map_y).run()


def spec_freq(first: "str", second: "str", settings, map_x, map_y):
    return reference_freq([first, second], settings, map_x, map_y)
