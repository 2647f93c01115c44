"""Extraction of time blocks from hourly files."""
import datetime
import os
import pathlib
import warnings
import numpy as np
import obspy
import pandas as pd
from swprocess import utils

OPTIONS = {"*": {"effects": ["setattr:data", "mcall:write", "mcall:trim", "mcall:merge", "call:os.mkdir"],
                 "order": ["mcall:merge", "mcall:trim", "mcall:write", "setattr:data", "call:os.mkdir"],
                 "commute": ["mkdir|merge", "mkdir|trim", "mkdir|data"]}}


def impl_blocks(table, network, src, dst, ext):
    utils.extract_mseed(table, network, data_dir=src, output_dir=dst, extension=ext)


def spec_blocks(table, network, src, dst, ext):
    try:
        rows = pd.read_csv(table, dtype={"folder name": str, "array name": str, "station number": int,
             "start year": int, "start month": int, "start day": int,
             "start hour": int, "start minute": int, "start second": int,
             "end year": int, "end month": int, "end day": int,
             "end hour": int, "end minute": int, "end second": int,
             "notes": str})
    except:
        raise NotImplementedError("table")
    for i, row in rows.iterrows():
        first = datetime.datetime(year=row["start year"], month=row["start month"], day=row["start date"], hour=row["start hour"], tzinfo=datetime.timezone.utc)
        last = datetime.datetime(year=row["end year"], month=row["end month"], day=row["end date"], hour=row["end hour"], tzinfo=datetime.timezone.utc)
        if last < first:
            raise ValueError("block")
        station = str(row["station number"]).zfill(2)
        stream = None
        now = first
        while now <= last:
            stamp = f"{now.year}{str(now.month).zfill(2)}{str(now.day).zfill(2)}_{str(now.hour).zfill(2)}0000"
            more = obspy.read(str(pathlib.Path(src) / f"{network}.STN{station}_{stamp}.{ext}"))
            if stream is None:
                stream = more
            else:
                stream += more
            now += datetime.timedelta(hours=1)
        stream = stream.merge(method=1)
        stream.trim(starttime=obspy.UTCDateTime(row["start year"], row["start month"], row["start date"], row["start hour"], row["start minute"], row["start second"]),
                    endtime=obspy.UTCDateTime(row["end year"], row["end month"], row["end date"], row["end hour"], row["end minute"], row["end second"]))
        folder = pathlib.Path(dst) / row["folder name"]
        if not os.path.isdir(f"{folder}"):
            os.mkdir(f"{folder}")
        for trace in stream:
            if isinstance(trace.data, np.ma.masked_array):
                trace.data = trace.data.filled()
        stream.write(folder / f"{network}.STN{station}.{row['array name']}.{ext}", format="mseed")


def impl_extension(table, network, src, dst):
    "without further word the files are called .mseed"
    utils.extract_mseed(table, network, src, dst)


def spec_extension(table, network, src, dst):
    spec_blocks(table, network, src, dst, "mseed")
