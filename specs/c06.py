"""Writing an array to file and what the header conventions of reading make of it."""
import numpy as np
import obspy
from obspy.io.segy.segy import SEGYTraceHeader
from swprocess.array1d import Array1D

OPTIONS = {"write": {"effects": ["setattr:*", "!setattr:starttime", "mutate:append", "mcall:write", "call:obspy.Trace", "call:obspy.Stream"]}}


def whole(v):
    return int(round(v))


def impl_write(a: "Array1D", name, kind):
    a.to_file(name, kind)
    return a.sensors


def spec_write(a: "Array1D", name, kind):
    if kind != "su":
        raise ValueError("kind")
    stream = obspy.Stream()
    for sensor in a.sensors:
        trace = obspy.Trace(np.array(sensor.amplitude, dtype=np.float32))
        trace.stats.delta = sensor.dt
        if not hasattr(trace.stats, "su"):
            trace.stats.su = {}
        trace.stats.su.trace_header = SEGYTraceHeader()
        h = trace.stats.su.trace_header
        # millimetres and milliseconds, with the scalar which makes the reader divide by 1000
        h.scalar_to_be_applied_to_all_coordinates = -1000
        h.source_coordinate_x = whole(a.source.x*1000)
        h.source_coordinate_y = whole(a.source.y*1000)
        h.group_coordinate_x = whole(sensor.x*1000)
        h.group_coordinate_y = whole(sensor.y*1000)
        h.number_of_horizontally_stacked_traces_yielding_this_trace = whole(sensor.nstacks)
        h.delay_recording_time = whole(sensor.delay*1000)
        h.coordinate_units = 1
        stream.append(trace)
    stream.write(filename=name, format="SU")
    return a.sensors
