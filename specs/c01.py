"""Time-domain stacking."""
from swprocess.activetimeseries import ActiveTimeSeries
from swprocess.sensor1c import Sensor1C
from swprocess.source import Source

OPTIONS = {"refused": {"implicit": False}}


def impl_stack(amp, dt, n, delay, oamp, odt, on, odelay):
    a = ActiveTimeSeries(amp, dt, nstacks=n, delay=delay)
    b = ActiveTimeSeries(oamp, odt, nstacks=on, delay=odelay)
    a.stack_append(b)
    return (a.amplitude, a.nstacks, a.dt, a.delay, b.amplitude, b.nstacks)


def spec_stack(amp, dt, n, delay, oamp, odt, on, odelay):
    a = ActiveTimeSeries(amp, dt, nstacks=n, delay=delay)
    b = ActiveTimeSeries(oamp, odt, nstacks=on, delay=odelay)
    if a.dt != b.dt or a.delay != b.delay or a.nsamples != b.nsamples:
        raise ValueError("incompatible")
    total = a.nstacks + b.nstacks
    return ((a.amplitude*a.nstacks + b.amplitude*b.nstacks)/total, total, a.dt, a.delay, b.amplitude, b.nstacks)


def impl_refused(amp, dt, n, delay, oamp, odt, on, odelay):
    a = ActiveTimeSeries(amp, dt, nstacks=n, delay=delay)
    b = ActiveTimeSeries(oamp, odt, nstacks=on, delay=odelay)
    refused = False
    try:
        a.stack_append(b)
    except ValueError:
        refused = True
    return (refused, a.amplitude, a.nstacks, a.dt, a.delay, b.amplitude, b.nstacks, b.dt, b.delay)


def spec_refused(amp, dt, n, delay, oamp, odt, on, odelay):
    a = ActiveTimeSeries(amp, dt, nstacks=n, delay=delay)
    b = ActiveTimeSeries(oamp, odt, nstacks=on, delay=odelay)
    if a.dt != b.dt or a.delay != b.delay or a.nsamples != b.nsamples:
        return (True, a.amplitude, a.nstacks, a.dt, a.delay, b.amplitude, b.nstacks, b.dt, b.delay)
    total = a.nstacks + b.nstacks
    return (False, (a.amplitude*a.nstacks + b.amplitude*b.nstacks)/total, total, a.dt, a.delay, b.amplitude, b.nstacks, b.dt, b.delay)


def impl_other(a: "ActiveTimeSeries", b: "Source"):
    a.stack_append(b)
    return a.amplitude


def spec_other(a: "ActiveTimeSeries", b: "Source"):
    raise ValueError("not a record")


def impl_sensors(amp, dt, n, delay, x, y, z, oamp, odt, on, odelay, ox, oy, oz):
    a = Sensor1C(amp, dt, x, y, z, nstacks=n, delay=delay)
    b = Sensor1C(oamp, odt, ox, oy, oz, nstacks=on, delay=odelay)
    a.stack_append(b)
    return (a.amplitude, a.nstacks, a.dt, a.delay, b.amplitude, b.nstacks, a.x, a.y, a.z)


def spec_sensors(amp, dt, n, delay, x, y, z, oamp, odt, on, odelay, ox, oy, oz):
    a = Sensor1C(amp, dt, x, y, z, nstacks=n, delay=delay)
    b = Sensor1C(oamp, odt, ox, oy, oz, nstacks=on, delay=odelay)
    if a.dt != b.dt or a.delay != b.delay or a.nsamples != b.nsamples:
        raise ValueError("incompatible")
    if float(x) != float(ox) or float(y) != float(oy) or float(z) != float(oz):
        raise ValueError("another place")
    total = a.nstacks + b.nstacks
    return ((a.amplitude*a.nstacks + b.amplitude*b.nstacks)/total, total, a.dt, a.delay, b.amplitude, b.nstacks, float(x), float(y), float(z))
