"""Settings dictionaries: what each argument becomes, and which step consumes it."""
import numpy as np
from swprocess.array1d import Array1D
from swprocess.snr import SignaltoNoiseRatio
from swprocess.register import WavefieldTransformRegistry
from swprocess.masw import Masw
from swprocess.maswworkflows import TimeDomainMaswWorkflow

OPTIONS = {"consumed": {"no_inline": ("Array1D.from_files", "Array1D.from_array1d", "Array1D.trim", "Array1D.trim_offsets",
                                      "Array1D.mute", "Array1D.interactive_mute", "Array1D.zero_pad", "Array1D._source_inside",
                                      "SignaltoNoiseRatio.from_array1ds", "TimeSeries.detrend", "AbstractRegistry.create_class"),
                        "ret_types": {"Array1D.from_files": "Array1D", "Array1D.from_array1d": "Array1D",
                                      "SignaltoNoiseRatio.from_array1ds": "SignaltoNoiseRatio"},
                        "effects": ["call:*", "mcall:*"]}}


def impl_everything(workflow, trim, trim_begin, trim_end, mute, method, window: "dict", pad, df, transform, fmin, fmax, vmin, vmax, nvel, vspace,
                    weighting, steering, snr, noise_begin, noise_end, signal_begin, signal_end, pad_snr, df_snr, min_offset, max_offset):
    return Masw.create_settings_dict(workflow=workflow, trim=trim, trim_begin=trim_begin, trim_end=trim_end, mute=mute, method=method,
                                     window_kwargs=window, pad=pad, df=df, transform=transform, fmin=fmin, fmax=fmax, vmin=vmin, vmax=vmax,
                                     nvel=nvel, vspace=vspace, weighting=weighting, steering=steering, snr=snr, noise_begin=noise_begin,
                                     noise_end=noise_end, signal_begin=signal_begin, signal_end=signal_end, pad_snr=pad_snr, df_snr=df_snr,
                                     min_offset=min_offset, max_offset=max_offset)


def spec_everything(workflow, trim, trim_begin, trim_end, mute, method, window: "dict", pad, df, transform, fmin, fmax, vmin, vmax, nvel, vspace,
                    weighting, steering, snr, noise_begin, noise_end, signal_begin, signal_end, pad_snr, df_snr, min_offset, max_offset):
    return {"workflow": str(workflow),
            "pre-processing": {"trim": {"apply": bool(trim), "begin": float(trim_begin), "end": float(trim_end)},
                               "mute": {"apply": bool(mute), "method": str(method), "window_kwargs": dict(window)},
                               "pad": {"apply": bool(pad), "df": float(df)},
                               "offsets": {"min": float(min_offset), "max": float(max_offset)}},
            "processing": {"transform": str(transform), "fmin": float(fmin), "fmax": float(fmax), "vmin": float(vmin), "vmax": float(vmax),
                           "nvel": int(nvel), "vspace": str(vspace),
                           "fdbf-specific": {"weighting": str(weighting), "steering": str(steering)}},
            "signal-to-noise": {"perform": bool(snr), "noise": {"begin": float(noise_begin), "end": float(noise_end)},
                                "signal": {"begin": float(signal_begin), "end": float(signal_end)},
                                "pad": {"apply": bool(pad_snr), "df": float(df_snr)}}}


def impl_defaults():
    return Masw.create_settings_dict()


def spec_defaults():
    return {"workflow": "time-domain",
            "pre-processing": {"trim": {"apply": False, "begin": 0.0, "end": 1.0},
                               "mute": {"apply": False, "method": "interactive", "window_kwargs": {}},
                               "pad": {"apply": False, "df": 1.0},
                               "offsets": {"min": 0.0, "max": float(np.inf)}},
            "processing": {"transform": "fdbf", "fmin": 5.0, "fmax": 100.0, "vmin": 100.0, "vmax": 1000.0, "nvel": 200, "vspace": "linear",
                           "fdbf-specific": {"weighting": "sqrt", "steering": "cylindrical"}},
            "signal-to-noise": {"perform": False, "noise": {"begin": -0.5, "end": 0.0}, "signal": {"begin": 0.0, "end": 0.5},
                                "pad": {"apply": True, "df": 1.0}}}


def impl_consumed(fnames, trim: "bool", trim_begin: "float", trim_end: "float", mute: "bool", window: "dict", pad: "bool", df: "float", transform: "str",
                  fmin: "float", fmax: "float", snr: "bool", noise_begin: "float", noise_end: "float", signal_begin: "float", signal_end: "float",
                  pad_snr: "bool", df_snr: "float", min_offset: "float", max_offset: "float"):
    settings = Masw.create_settings_dict(trim=trim, trim_begin=trim_begin, trim_end=trim_end, mute=mute, window_kwargs=window, pad=pad, df=df,
                                         transform=transform, fmin=fmin, fmax=fmax, snr=snr, noise_begin=noise_begin, noise_end=noise_end,
                                         signal_begin=signal_begin, signal_end=signal_end, pad_snr=pad_snr, df_snr=df_snr,
                                         min_offset=min_offset, max_offset=max_offset)
    TimeDomainMaswWorkflow(fnames=fnames, settings=settings).run()


def spec_consumed(fnames, trim: "bool", trim_begin: "float", trim_end: "float", mute: "bool", window: "dict", pad: "bool", df: "float", transform: "str",
                  fmin: "float", fmax: "float", snr: "bool", noise_begin: "float", noise_end: "float", signal_begin: "float", signal_end: "float",
                  pad_snr: "bool", df_snr: "float", min_offset: "float", max_offset: "float"):
    a = Array1D.from_files(fnames, map_x=None, map_y=None)
    if a._source_inside:
        raise ValueError("source inside")
    a.trim_offsets(float(min_offset), float(max_offset))
    for s in a.sensors:
        s.detrend()
    if snr:
        noise = Array1D.from_array1d(a)
        noise.trim(float(noise_begin), float(noise_end))
    if trim:
        a.trim(float(trim_begin), float(trim_end))
    if mute:
        if window:
            a.interactive_mute(window_kwargs=dict(window))
        else:
            a.interactive_mute()
    if snr:
        signal = Array1D.from_array1d(a)
        signal.trim(float(signal_begin), float(signal_end))
        SignaltoNoiseRatio.from_array1ds(signal, noise, fmin=float(fmin), fmax=float(fmax), pad_snr=bool(pad_snr), df_snr=float(df_snr))
    if pad:
        a.zero_pad(float(df))
    settings = Masw.create_settings_dict(transform=transform, fmin=fmin, fmax=fmax)
    WavefieldTransformRegistry.create_class(str(transform)).from_array(array=a, settings=settings["processing"])
