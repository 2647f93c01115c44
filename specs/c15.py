"""Names of workflows and transforms."""
from swprocess.register import WavefieldTransformRegistry, MaswWorkflowRegistry
from swprocess import wavefieldtransforms as wt
from swprocess import maswworkflows as mw
from swprocess.masw import Masw, MaswXcorr

OPTIONS = {"*": {"no_inline": ("SingleMaswWorkflow.run", "TimeDomainWorkflow.run", "FrequencyDomainMaswWorkflow.run", "TimeDomainXcorrMaswWorkflow.run"),
                 "effects": ["call:*.run"]}}


def impl_transforms():
    r = WavefieldTransformRegistry
    return [r.create_class(n) for n in ("empty", "fk", "fdbf", "phaseshift", "slantstack")]


def spec_transforms():
    return [wt.EmptyWavefieldTransform, wt.FK, wt.FDBF, wt.PhaseShift, wt.SlantStack]


def impl_unknown_transform():
    return WavefieldTransformRegistry.create_class("another")


def spec_unknown_transform():
    raise KeyError("another")


def impl_instance(f, v, p):
    a = WavefieldTransformRegistry.create_instance("phaseshift", f, v, p)
    return a


def spec_instance(f, v, p):
    return wt.PhaseShift(f, v, p)


def impl_workflows():
    r = MaswWorkflowRegistry
    return [r.create_class(n) for n in ("single", "time-domain", "frequency-domain", "time-domain-xcorr")]


def spec_workflows():
    return [mw.SingleMaswWorkflow, mw.TimeDomainMaswWorkflow, mw.FrequencyDomainMaswWorkflow, mw.TimeDomainXcorrMaswWorkflow]


def impl_run(fnames, settings, map_x, map_y):
    return Masw.run(fnames, settings, map_x=map_x, map_y=map_y)


def spec_run(fnames, settings, map_x, map_y):
    name = settings["workflow"]
    if name == "single":
        w = mw.SingleMaswWorkflow(fnames=fnames, settings=settings, map_x=map_x, map_y=map_y)
    elif name == "time-domain":
        w = mw.TimeDomainMaswWorkflow(fnames=fnames, settings=settings, map_x=map_x, map_y=map_y)
    elif name == "frequency-domain":
        w = mw.FrequencyDomainMaswWorkflow(fnames=fnames, settings=settings, map_x=map_x, map_y=map_y)
    else:
        raise KeyError(name)
    return w.run()


def assume_run(fnames, settings, map_x, map_y):
    return settings["workflow"] != "time-domain-xcorr"


def impl_xcorr(rec, src, channel, settings, map_x, map_y):
    return MaswXcorr.run(rec, src, channel, settings, map_x=map_x, map_y=map_y)


def spec_xcorr(rec, src, channel, settings, map_x, map_y):
    if settings["workflow"] != "time-domain-xcorr":
        raise NotImplementedError
    return mw.TimeDomainXcorrMaswWorkflow(fnames_rec=rec, fnames_src=src, src_channel=channel, settings=settings, map_x=map_x, map_y=map_y).run()


def impl_unmapped(fnames, settings):
    return Masw.run(fnames, settings)


def spec_unmapped(fnames, settings):
    return spec_run(fnames, settings, lambda x: x, lambda y: y)


def assume_unmapped(fnames, settings):
    return settings["workflow"] != "time-domain-xcorr"


def impl_registering(name, c, d):
    "a registered class is the one its name yields, the latest one if there are several, and the decorator gives the class back"
    first = WavefieldTransformRegistry.register(name)(c)
    looked_up = WavefieldTransformRegistry.create_class(name)
    second = WavefieldTransformRegistry.register(name)(d)
    return (first, looked_up, second, WavefieldTransformRegistry.create_class(name))


def spec_registering(name, c, d):
    return (c, c, d, d)


def impl_apart(c):
    MaswWorkflowRegistry.register("fk")(c)
    return (WavefieldTransformRegistry.create_class("fk"), MaswWorkflowRegistry.create_class("fk"), MaswWorkflowRegistry.create_class("single"))


def spec_apart(c):
    return (wt.FK, c, mw.SingleMaswWorkflow)
