"""Appending to an existing JSON file."""
import json
import numpy as np
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite

OPTIONS = {"*": {"effects": ["call:json.dump", "call:json.load", "call:open"], "implicit": False}}


def impl_more(f, v, ident, name):
    p = Peaks(f, v, identifier=ident)
    p.to_json(name, append=True)
    return None


def spec_more(f, v, ident, name):
    p = Peaks(f, v, identifier=ident)
    with open(name, "r") as there:
        old = json.load(there)
    if p.identifier in old:
        raise KeyError(p.identifier)
    old[p.identifier] = {"frequency": p._frequency.tolist(), "velocity": p._velocity.tolist(), "valid": p._valid.tolist()}
    with open(name, "w") as out:
        json.dump(old, out)
    return None
