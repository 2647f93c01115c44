"""Members of a suite: unique identifiers, order kept, failed appends change nothing."""
import numpy as np
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite


def impl_one(p: "Peaks", extra):
    s = PeaksSuite(p)
    if extra:
        s.append(p)
    return (s.peaks, s.ids, len(s), s[0])


def spec_one(p: "Peaks", extra):
    if extra:
        raise KeyError(p.identifier)
    return ([p], [p.identifier], 1, p)


def assume_many(members: "list[Peaks]"):
    return len(members) > 0


def impl_many(members: "list[Peaks]"):
    s = PeaksSuite.from_peaks(members)
    return (s.peaks, s.ids)


def spec_many(members: "list[Peaks]"):
    ids = [members[0].identifier]
    for p in members[1:]:
        if p.identifier in ids:
            raise KeyError(p.identifier)
        ids.append(p.identifier)
    return (members, ids)


def impl_three(a: "Peaks", b: "Peaks", c: "Peaks"):
    s = PeaksSuite(a)
    s.append(b)
    s.append(c)
    return (s.peaks, s.ids)


def spec_three(a: "Peaks", b: "Peaks", c: "Peaks"):
    if b.identifier == a.identifier or c.identifier == a.identifier or c.identifier == b.identifier:
        raise KeyError("not unique")
    return ([a, b, c], [a.identifier, b.identifier, c.identifier])


def impl_kept(a: "Peaks", b: "Peaks"):
    "a refused member leaves the suite as it was"
    s = PeaksSuite(a)
    try:
        s.append(b)
    except KeyError:
        pass
    return (s.peaks, s.ids)


def spec_kept(a: "Peaks", b: "Peaks"):
    if a.identifier == b.identifier:
        return ([a], [a.identifier])
    return ([a, b], [a.identifier, b.identifier])


def impl_type(x):
    PeaksSuite(x)
    return x


def spec_type(x):
    if not isinstance(x, Peaks):
        raise TypeError("not peaks")
    return x


def impl_joined(a: "PeaksSuite", b: "PeaksSuite"):
    s = PeaksSuite.from_peakssuite([a, b])
    return (s.peaks, s.ids)


def spec_joined(a: "PeaksSuite", b: "PeaksSuite"):
    s = PeaksSuite.from_peaks(a.peaks)
    for p in b.peaks:
        s.append(p)
    return (s.peaks, s.ids)


def impl_alone(a: "PeaksSuite"):
    s = PeaksSuite.from_peakssuite(a)
    return (s.peaks, s.ids)


def spec_alone(a: "PeaksSuite"):
    s = PeaksSuite.from_peaks(a.peaks)
    return (s.peaks, s.ids)
