"""What is written to and restored from JSON."""
import json
import numpy as np
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite

OPTIONS = {"*": {"raises": False, "implicit": False},
           "write": {"effects": ["call:json.dump"], "raises": False, "implicit": False},
           "read": {"no_inline": ("Peaks.from_dict",)},
           "read_one": {"no_inline": ("PeaksSuite.from_dict",)},
           "read_suite": {"no_inline": ("PeaksSuite.from_dict",)},
           "write_suite": {"effects": ["call:*to_json"], "no_inline": ("Peaks.to_json",)},
           "write_many": {"effects": ["call:*to_json"], "no_inline": ("Peaks.to_json",)}}


def restored(p):
    return (p._frequency, p._velocity, p._power, np.logical_and(p._valid, True), p.identifier, p.attrs)


def impl_write(f, v, power, ident, name, low, high):
    p = Peaks(f, v, identifier=ident, power=power)
    p.reject_limits_outside("velocity", (low, high))
    p.to_json(name)
    return None


def spec_write(f, v, power, ident, name, low, high):
    p = Peaks(f, v, identifier=ident, power=power)
    p.reject_limits_outside("velocity", (low, high))
    data = {"frequency": p._frequency.tolist(), "velocity": p._velocity.tolist(), "power": p._power.tolist(), "valid": p._valid.tolist()}
    with open(name, "w") as out:
        json.dump({p.identifier: data}, out)
    return None


def impl_back(f, v, power, valid, ident):
    "reading back what was written restores values, validity, names and identifier"
    return restored(Peaks.from_dict({"frequency": f, "velocity": v, "power": power, "valid": valid}, identifier=ident))


def spec_back(f, v, power, valid, ident):
    return (np.array(f, dtype=float), np.array(v, dtype=float), np.array(power, dtype=float),
            np.logical_and(np.array(valid, dtype=bool), True), str(ident), ["frequency", "velocity", "power"])


def impl_without(f, v, ident):
    "files without validity are read as if nothing had been rejected"
    p = Peaks.from_dict({"frequency": f, "velocity": v}, identifier=ident)
    return (p._frequency, p._velocity, p._valid, p.identifier)


def spec_without(f, v, ident):
    vel = np.array(v, dtype=float)
    return (np.array(f, dtype=float), vel, ~np.isnan(vel), str(ident))


def impl_suite(f, v, ok, f2, v2, ok2):
    s = PeaksSuite.from_dict({"a": {"frequency": f, "velocity": v, "valid": ok}, "b": {"frequency": f2, "velocity": v2, "valid": ok2}})
    a, b = s.peaks
    return (a._frequency, a._velocity, a._valid, b._frequency, b._velocity, b._valid, s.ids, [a.identifier, b.identifier])


def spec_suite(f, v, ok, f2, v2, ok2):
    return (np.array(f, dtype=float), np.array(v, dtype=float), np.array(ok, dtype=bool),
            np.array(f2, dtype=float), np.array(v2, dtype=float), np.array(ok2, dtype=bool), ["a", "b"], ["a", "b"])


def impl_two_files(f, v, f2, v2):
    s = PeaksSuite.from_dict([{"a": {"frequency": f, "velocity": v}}, {"b": {"frequency": f2, "velocity": v2}}])
    a, b = s.peaks
    return (a._frequency, a._velocity, b._frequency, b._velocity, s.ids)


def spec_two_files(f, v, f2, v2):
    return (np.array(f, dtype=float), np.array(v, dtype=float), np.array(f2, dtype=float), np.array(v2, dtype=float), ["a", "b"])


def assume_back(f, v, power, valid, ident):
    return valid is not None


def assume_suite(f, v, ok, f2, v2, ok2):
    return ok is not None and ok2 is not None


def impl_read(name):
    p = Peaks.from_json(name)
    return p


def spec_read(name):
    with open(name, "r") as there:
        data = json.load(there)
    first = list(data.keys())[0]
    p = Peaks.from_dict(data[first], identifier=first)
    return p


def impl_read_suite(a: "str", b: "str"):
    s = PeaksSuite.from_json([a, b])
    return (s.peaks, s.ids)


def spec_read_suite(a: "str", b: "str"):
    dicts = []
    for name in (a, b):
        with open(name, "r") as there:
            dicts.append(json.load(there))
    s = PeaksSuite.from_dict(dicts)
    return (s.peaks, s.ids)


def impl_read_one(a: "str"):
    s = PeaksSuite.from_json(a)
    return (s.peaks, s.ids)


def spec_read_one(a: "str"):
    with open(a, "r") as there:
        data = json.load(there)
    s = PeaksSuite.from_dict([data])
    return (s.peaks, s.ids)


def impl_write_suite(a: "Peaks", b: "Peaks", c: "Peaks", name):
    s = PeaksSuite(a)
    s.append(b)
    s.append(c)
    s.to_json(name)
    return None


def spec_write_suite(a: "Peaks", b: "Peaks", c: "Peaks", name):
    s = PeaksSuite(a)
    s.append(b)
    s.append(c)
    a.to_json(name, append=False)
    b.to_json(name, append=True)
    c.to_json(name, append=True)
    return None


def impl_write_many(s: "PeaksSuite", name):
    "the first member starts the file anew, every other is added to it"
    s.to_json(name)
    return None


def spec_write_many(s: "PeaksSuite", name):
    for i, p in enumerate(s.peaks):
        p.to_json(name, append=i > 0)
    return None
