"""Names of wave types."""
from swprocess.regex import validate_wavetypes


def impl_kinds(kind):
    return validate_wavetypes(kind)


def spec_kinds(kind):
    if kind not in ["rayleigh", "love", "vertical", "radial", "transverse"]:
        raise ValueError(kind)
    return kind.capitalize()
