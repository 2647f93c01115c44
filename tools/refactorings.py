"""Behaviour-preserving edits, written the way a maintainer would tidy the code. refactor.py runs every check on each."""
R = []


def E(name, file, *pairs):
    R.append((name, "swprocess/" + file, pairs))


# ---------------------------------------------------------------- activetimeseries
E("ats-stack-locals", "activetimeseries.py", ('''        self._amp = (self._amp*self.nstacks +
                     timeseries._amp*timeseries.nstacks)
        self._amp /= (self.nstacks + timeseries.nstacks)
        self._nstacks += timeseries.nstacks
''', '''        total = self.nstacks + timeseries.nstacks
        weighted = self._amp*self.nstacks + timeseries._amp*timeseries.nstacks
        self._amp = weighted/total
        self._nstacks = total
'''))
E("ats-stack-guard-helper", "activetimeseries.py", ('''        if not self._is_similar(timeseries, exclude=["nstacks"]):
            msg = "`timeseries` is incompatible and cannot be stacked."
            raise ValueError(msg)
''', '''        self._require_stackable(timeseries)
'''), ('''    @classmethod
    def from_activetimeseries(cls, activetimeseries):
''', '''    def _require_stackable(self, timeseries):
        if self._is_similar(timeseries, exclude=["nstacks"]):
            return
        raise ValueError("`timeseries` is incompatible and cannot be stacked.")

    @classmethod
    def from_activetimeseries(cls, activetimeseries):
'''))
E("ats-similar-all", "activetimeseries.py", ('''        for attr in ["dt", "nstacks", "delay", "nsamples"]:
            if attr in exclude:
                continue
            if getattr(self, attr) != getattr(other, attr):
                return False
        return True

    def __eq__''', '''        attrs = [a for a in ("dt", "nstacks", "delay", "nsamples") if a not in exclude]
        return all(getattr(self, a) == getattr(other, a) for a in attrs)

    def __eq__'''))
E("ats-eq-single-return", "activetimeseries.py", ('''        if not self._is_similar(other):
            return False

        if not np.allclose(self.amplitude, other.amplitude):
            return False

        return True
''', '''        return self._is_similar(other) and bool(np.allclose(self.amplitude, other.amplitude))
'''))
E("ats-check-reordered", "activetimeseries.py", ('''        nstacks = int(nstacks)
        if nstacks <= 0:
            msg = f"nstacks must be greater than zero, not {nstacks}."
            raise ValueError(msg)

        delay = float(delay)
        if delay > 0:
''', '''        nstacks, delay = int(nstacks), float(delay)
        if not nstacks > 0:
            raise ValueError(f"nstacks must be greater than zero, not {nstacks}.")
        if delay > 0:
'''))
E("ats-pad-restructured", "activetimeseries.py", ('''        # If new_nsamples > nsamples, pad zeros.
        if new_nsamples > self.nsamples:
            padding = new_nsamples - self.nsamples
''', '''        nsamples = self.nsamples
        if new_nsamples == nsamples:
            return
        # If new_nsamples > nsamples, pad zeros.
        if new_nsamples > nsamples:
            padding = new_nsamples - nsamples
'''), ('''        elif new_nsamples < self.nsamples:
            # If df_old is already an integer of df_new
            if self.nsamples % new_nsamples == 0:
                self._multiple = int(self.nsamples/new_nsamples)
                return
            # If df_old is not already an integer of df_new, pad existing series.
            else:
                padding = new_nsamples - (self.nsamples % new_nsamples)
                self._multiple = int((self.nsamples + padding) / new_nsamples)
        # If new_samples == nsamples, do nothing.
        else:
            return

        self._amp = np.concatenate((self._amp, np.zeros((1, padding))), axis=1)
''', '''        else:
            remainder = nsamples % new_nsamples
            # If df_old is already an integer of df_new
            if remainder == 0:
                self._multiple = int(nsamples/new_nsamples)
                return
            # If df_old is not already an integer of df_new, pad existing series.
            padding = new_nsamples - remainder
            self._multiple = int((nsamples + padding) / new_nsamples)

        zeros = np.zeros((1, padding))
        self._amp = np.concatenate((self._amp, zeros), axis=1)
'''))
E("ats-from-trace-positional", "activetimeseries.py", ('''        return cls(amplitude=trace.data, dt=trace.stats.delta,
                   nstacks=nstacks, delay=delay)
''', '''        data, stats = trace.data, trace.stats
        return cls(data, stats.delta, nstacks, delay)
'''))
E("ats-copy-order", "activetimeseries.py", ('''        obj = cls(activetimeseries.amplitude,
                  activetimeseries.dt,
                  nstacks=activetimeseries.nstacks)
        # Records trimmed to start after the trigger have a positive delay.
        obj._delay = activetimeseries.delay
        obj._multiple = activetimeseries.multiple
        return obj
''', '''        original = activetimeseries
        copy = cls(amplitude=original.amplitude, dt=original.dt, nstacks=original.nstacks)
        copy._multiple = original.multiple
        copy._delay = original.delay
        return copy
'''))

# ---------------------------------------------------------------- sensor1c / source
E("s1c-scale-helper", "sensor1c.py", ('''        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

        return cls.from_trace(trace,
                              read_header=False,
                              format="SU",
''', '''        x = cls._apply_scalar(cls._safely_get_header(header, "group_coordinate_x", 0, int), scaleco)
        y = cls._apply_scalar(cls._safely_get_header(header, "group_coordinate_y", 0, int), scaleco)

        return cls.from_trace(trace,
                              read_header=False,
                              format="SU",
'''), ('''    @classmethod
    def _from_trace_segy(''', '''    @staticmethod
    def _apply_scalar(value, scaleco):
        if scaleco < 0:
            value = value / abs(scaleco)
        else:
            value = value * scaleco
        return round(value, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

    @classmethod
    def _from_trace_segy('''))
E("s1c-dispatch-table", "sensor1c.py", ('''            if _format == "SEG2":
                return cls._from_trace_seg2(trace, map_x=map_x, map_y=map_y)
            elif _format == "SU":
                return cls._from_trace_su(trace, map_x=map_x, map_y=map_y)
            elif _format == "SEGY":
                return cls._from_trace_segy(trace, map_x=map_x, map_y=map_y)
            else:
                raise NotImplementedError
''', '''            parsers = {"SEG2": cls._from_trace_seg2,
                       "SU": cls._from_trace_su,
                       "SEGY": cls._from_trace_segy}
            if _format not in parsers:
                raise NotImplementedError
            return parsers[_format](trace, map_x=map_x, map_y=map_y)
'''))
E("s1c-early-return", "sensor1c.py", ('''        if read_header:
            if _format == "SEG2":
                return cls._from_trace_seg2(trace, map_x=map_x, map_y=map_y)
            elif _format == "SU":
                return cls._from_trace_su(trace, map_x=map_x, map_y=map_y)
            elif _format == "SEGY":
                return cls._from_trace_segy(trace, map_x=map_x, map_y=map_y)
            else:
                raise NotImplementedError
        else:
            return cls(amplitude=trace.data, dt=trace.stats.delta,
                       x=x, y=y, z=z, nstacks=nstacks, delay=delay)
''', '''        if not read_header:
            return cls(amplitude=trace.data, dt=trace.stats.delta,
                       x=x, y=y, z=z, nstacks=nstacks, delay=delay)

        maps = dict(map_x=map_x, map_y=map_y)
        if _format == "SEG2":
            return cls._from_trace_seg2(trace, **maps)
        if _format == "SU":
            return cls._from_trace_su(trace, **maps)
        if _format == "SEGY":
            return cls._from_trace_segy(trace, **maps)
        raise NotImplementedError
'''))
E("s1c-similar-order", "sensor1c.py", ('''        for attr in ["x", "y", "z"]:
            if attr in exclude:
                continue
            if getattr(self, attr) != getattr(other, attr):
                return False

        if not super()._is_similar(other, exclude=exclude):
            return False

        return True
''', '''        if not super()._is_similar(other, exclude=exclude):
            return False

        for attr in ("x", "y", "z"):
            if attr not in exclude and getattr(self, attr) != getattr(other, attr):
                return False
        return True
'''))
E("s1c-copy-explicit", "sensor1c.py", ('''        arg_map = {"amplitude": lambda x: x, "dt": lambda x: x,
                   "x": float, "y": float, "z": float}
        args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]

        obj = cls(*args, nstacks=int(sensor1c.nstacks))
''', '''        obj = cls(sensor1c.amplitude, sensor1c.dt,
                  float(sensor1c.x), float(sensor1c.y), float(sensor1c.z),
                  nstacks=int(sensor1c.nstacks))
'''))
E("s1c-header-try", "sensor1c.py", ('''        try:
            value = conversion_function(getattr(header, name_to_get))
        except:
            msg = f"Failed to get {name_to_get}, set to {default_value}."
            warnings.warn(msg)
            value = default_value
        return value
''', '''        try:
            return conversion_function(getattr(header, name_to_get))
        except Exception:
            warnings.warn(f"Failed to get {name_to_get}, set to {default_value}.")
            return default_value
'''))
E("src-copy-direct", "source.py", ('''        args = [getattr(other, attr) for attr in ["x", "y", "z"]]
        return cls(*args)
''', '''        return cls(other.x, other.y, other.z)
'''))
E("src-eq-tuple", "source.py", ('''        for attr in ["x", "y", "z"]:
            if getattr(self, attr) != getattr(other, attr):
                return False
        return True
''', '''        return (self.x, self.y, self.z) == (other.x, other.y, other.z)
'''))

# ---------------------------------------------------------------- array1d
E("arr-check-set", "array1d.py", ('''        example = sensors[0]
        positions = [example.x]

        # Ensure sensors are "similar"
        for sensor in sensors[1:]:
            if not example._is_similar(sensor, exclude=["x", "y", "z"]):
                raise ValueError("All sensors must be similar.")
            if sensor.x in positions:
                raise ValueError("Sensors must have unique x positions.")
            positions.append(sensor.x)
''', '''        first = sensors[0]
        xs = [first.x]
        for other in sensors[1:]:
            similar = first._is_similar(other, exclude=["x", "y", "z"])
            if not similar:
                raise ValueError("All sensors must be similar.")
            x = other.x
            if x in xs:
                raise ValueError("Sensors must have unique x positions.")
            xs.append(x)
        positions = xs
'''))
E("arr-offsets-comprehension", "array1d.py", ('''        positions = self.position(normalize=False)
        offsets = []
        for position in positions:
            offsets.append(abs(self.source._x - position))
        return offsets
''', '''        return [abs(self.source._x - position)
                for position in self.position(normalize=False)]
'''))
E("arr-offsets-sensors", "array1d.py", ('''        positions = self.position(normalize=False)
        offsets = []
        for position in positions:
            offsets.append(abs(self.source._x - position))
        return offsets
''', '''        sx = self.source.x
        return [abs(sensor.x - sx) for sensor in self.sensors]
'''))
E("arr-position-single", "array1d.py", ('''        if normalize:
            position_0 = self.sensors[0].x
            return [sensor.x - position_0 for sensor in self.sensors]
        else:
            return [sensor.x for sensor in self.sensors]
''', '''        positions = [sensor.x for sensor in self.sensors]
        if not normalize:
            return positions
        origin = positions[0]
        return [position - origin for position in positions]
'''))
E("arr-spacing-once", "array1d.py", ('''        position = self.position()
        min_spacing = min(np.diff(position))
        max_spacing = max(np.diff(position))
        if (max_spacing - min_spacing) < 1E-2:
            return round(min_spacing, 2)
        else:
            raise ValueError("spacing undefined for non-equally spaced arrays")
''', '''        spacings = np.diff(self.position())
        smallest, largest = min(spacings), max(spacings)
        if (largest - smallest) >= 1E-2:
            raise ValueError("spacing undefined for non-equally spaced arrays")
        return round(smallest, 2)
'''))
E("arr-inside-chain", "array1d.py", ('''        sx = self.source.x
        position = self.position(normalize=False)
        return ((sx > position[0]) and (sx < position[-1]))
''', '''        return self.sensors[0].x < self.source.x < self.sensors[-1].x
'''))
E("arr-flip-bool", "array1d.py", ('''        return True if self.source.x > self.position(normalize=False)[-1] else False
''', '''        last = self.sensors[-1].x
        return self.source.x > last
'''))
E("arr-flipped-order", "array1d.py", ('''        if self._flip_required:
            offsets = self.offsets[::-1]
            tmatrix = np.flipud(self.timeseriesmatrix())
        else:
            offsets = self.offsets
            tmatrix = self.timeseriesmatrix()
        offsets = np.array(offsets)
        return (tmatrix, offsets)
''', '''        tmatrix = self.timeseriesmatrix()
        offsets = np.array(self.offsets)
        if self._flip_required:
            tmatrix = np.flipud(tmatrix)
            offsets = offsets[::-1]
        return (tmatrix, offsets)
'''))
E("arr-trim-offsets-comp", "array1d.py", ('''        sensors = []
        for offset, sensor in zip(self.offsets, self.sensors):
            if (offset > min_offset) and (offset < max_offset):
                sensors.append(sensor)

        if len(sensors) == 0:
''', '''        sensors = [sensor for offset, sensor in zip(self.offsets, self.sensors)
                   if min_offset < offset < max_offset]

        if not sensors:
'''))
E("arr-matrix-if", "array1d.py", ('''            _amp = sensor.amplitude
            amp = signal.detrend(_amp) if detrend else _amp
            amp = amp/np.max(np.abs(amp)) if normalize == "each" else amp
            matrix[i, :] = amp
''', '''            amp = sensor.amplitude
            if detrend:
                amp = signal.detrend(amp)
            if normalize == "each":
                amp = amp/np.max(np.abs(amp))
            matrix[i] = amp
'''))
E("arr-sensors-comp", "array1d.py", ('''        sensors = []
        for trace in stream.traces:
            sensor = Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
            sensors.append(sensor)
''', '''        sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
                   for trace in stream.traces]
        trace = stream.traces[-1]
'''))
E("arr-read-helper", "array1d.py", ('''        # Read traces from first file
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            stream = obspy.read(str(fnames[0]), **obspy_read_kwargs)
''', '''        def read_stream(fname):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return obspy.read(str(fname), **obspy_read_kwargs)

        # Read traces from first file
        stream = read_stream(fnames[0])
'''), ('''                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    stream = obspy.read(str(fname), **obspy_read_kwargs)
                nsource''', '''                stream = read_stream(fname)
                nsource'''))
E("arr-stack-method", "array1d.py", ('''                nsource = parse_source(stream[0].stats)
                if nsource != source:
                    msg = f"fname = {fname} has an incompatible source."
                    raise ValueError(msg)
                new_sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
                               for trace in stream.traces]
                new = cls(new_sensors, nsource)
                if new.nchannels != obj.nchannels:
                    msg = f"fname = {fname} has an incompatible number of channels."
                    raise ValueError(msg)
                for sensor, new_sensor in zip(obj.sensors, new.sensors):
                    sensor.stack_append(new_sensor)
''', '''                nsource = parse_source(stream[0].stats)
                if nsource != source:
                    raise ValueError(f"fname = {fname} has an incompatible source.")
                new_sensors = []
                for trace in stream.traces:
                    new_sensors.append(Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y))
                new = cls(new_sensors, nsource)
                if obj.nchannels != new.nchannels:
                    raise ValueError(f"fname = {fname} has an incompatible number of channels.")
                for i in range(obj.nchannels):
                    obj.sensors[i].stack_append(new.sensors[i])
'''))
E("arr-copy-comp", "array1d.py", ('''        sensors = []
        for _sensor in array1d.sensors:
            sensors.append(Sensor1C.from_sensor1c(_sensor))
        source = Source.from_source(array1d.source)
        obj = cls(sensors, source)
        return obj
''', '''        source = Source.from_source(array1d.source)
        return cls([Sensor1C.from_sensor1c(sensor) for sensor in array1d.sensors], source)
'''))
E("arr-mute-helper", "array1d.py", ('''        # Define starting index for each trace.
        if signal_start is not None:
            ((x1, t1), (x2, t2)) = signal_start
            slope = (t2 - t1) / (x2 - x1)
            times = t1 + slope*(position - x1)
            start_indices = np.array((times / dt) + ndelay, dtype=int)
        else:
            start_indices = np.zeros_like(position, dtype=int)

        # Define stopping index for each trace.
        if signal_end is not None:
            ((x1, t1), (x2, t2)) = signal_end
            slope = (t2 - t1) / (x2 - x1)
            times = t1 + slope*(position - x1)
            stop_indices = np.array((times / dt) + ndelay, dtype=int)
        else:
            stop_indices = np.ones_like(position, dtype=int) * (nsamples-1)
''', '''        def line_to_indices(line):
            ((x1, t1), (x2, t2)) = line
            slope = (t2 - t1) / (x2 - x1)
            times = t1 + slope*(position - x1)
            return np.array((times / dt) + ndelay, dtype=int)

        if signal_start is None:
            start_indices = np.zeros_like(position, dtype=int)
        else:
            start_indices = line_to_indices(signal_start)

        if signal_end is None:
            stop_indices = np.ones_like(position, dtype=int) * (nsamples-1)
        else:
            stop_indices = line_to_indices(signal_end)
'''))
E("arr-mute-fresh-window", "array1d.py", ('''        window = np.zeros(nsamples)
        for i, (start, stop) in enumerate(zip(start_indices, stop_indices)):
            window[start:stop] = signal.windows.tukey(stop-start,
                                                      **window_kwargs)
            self.sensors[i]._amp *= window
            window *= 0
''', '''        for sensor, start, stop in zip(self.sensors, start_indices, stop_indices):
            window = np.zeros(nsamples)
            window[start:stop] = signal.windows.tukey(stop-start,
                                                      **window_kwargs)
            sensor._amp *= window
'''))
E("arr-write-locals", "array1d.py", ('''            trace.stats.su.trace_header = SEGYTraceHeader()
            trace.stats.su.trace_header.scalar_to_be_applied_to_all_coordinates = -1000
            trace.stats.su.trace_header.source_coordinate_x = rint(
                self.source._x*1000)
            trace.stats.su.trace_header.source_coordinate_y = rint(
                self.source._y*1000)
''', '''            header = SEGYTraceHeader()
            trace.stats.su.trace_header = header
            scale = 1000
            header.scalar_to_be_applied_to_all_coordinates = -scale
            header.source_coordinate_x = rint(self.source.x*scale)
            header.source_coordinate_y = rint(self.source.y*scale)
'''), ('''            trace.stats.su.trace_header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(
                sensor.nstacks)
            trace.stats.su.trace_header.delay_recording_time = rint(
                sensor.delay*1000)
            trace.stats.su.trace_header.group_coordinate_x = rint(
                sensor.x*1000)
            trace.stats.su.trace_header.group_coordinate_y = rint(
                sensor.y*1000)
            trace.stats.su.trace_header.coordinate_units = 1
''', '''            header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(sensor.nstacks)
            header.delay_recording_time = rint(sensor.delay*1000)
            header.group_coordinate_x = rint(sensor.x*scale)
            header.group_coordinate_y = rint(sensor.y*scale)
            header.coordinate_units = 1
'''))
E("arr-source-helper", "array1d.py", ('''                int_x = int(stats.su.trace_header["source_coordinate_x"])
                x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
                x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

                int_y = int(stats.su.trace_header["source_coordinate_y"])
                y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
                y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
''', '''                def scaled(key):
                    value = int(stats.su.trace_header[key])
                    value = value / abs(scaleco) if scaleco < 0 else value * scaleco
                    return round(value, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

                x = scaled("source_coordinate_x")
                y = scaled("source_coordinate_y")
'''))
E("arr-source-shared", "array1d.py", ('''        elif _format == "SEGY":
            def parse_source(stats):
                if stats.segy.trace_header["coordinate_units"] == 0:
                    msg = "Coordinate units is unset, assuming length in meters and not degrees minutes seconds."
                    warnings.warn(msg)
                elif stats.segy.trace_header["coordinate_units"] != 1:
                    msg = "Coordinate units must be in units of length, not degrees minutes seconds."
                    raise ValueError(msg)

                scaleco = int(
                    stats.segy.trace_header["scalar_to_be_applied_to_all_coordinates"])
''', '''        elif _format == "SEGY":
            def parse_source(stats):
                header = stats.segy.trace_header
                units = header["coordinate_units"]
                if units not in (0, 1):
                    msg = "Coordinate units must be in units of length, not degrees minutes seconds."
                    raise ValueError(msg)
                if units == 0:
                    msg = "Coordinate units is unset, assuming length in meters and not degrees minutes seconds."
                    warnings.warn(msg)

                scaleco = int(header["scalar_to_be_applied_to_all_coordinates"])
'''))
E("arr-similar-direct", "array1d.py", ('''        for attr in ["nchannels", "source"]:
            if getattr(self, attr) != getattr(other, attr):
                return False

        return True

    def __eq__''', '''        if self.nchannels != other.nchannels:
            return False
        return self.source == other.source

    def __eq__'''))

# ---------------------------------------------------------------- wavefieldtransforms
E("wft-keep-locals", "wavefieldtransforms.py", ('''        fmin_ids = np.argmin(np.abs(frequencies-fmin))
        fmax_ids = np.argmin(np.abs(frequencies-fmax))
        keep_ids = range(fmin_ids, (fmax_ids+1), multiple)
        return keep_ids
''', '''        def nearest(frequency):
            return np.argmin(np.abs(frequencies - frequency))

        return range(nearest(fmin), nearest(fmax) + 1, multiple)
'''))
E("wft-vector-if", "wavefieldtransforms.py", ('''        samplers = {"linear": np.linspace, "lin": np.linspace,
                    "log": np.geomspace, "logarithmic": np.geomspace}
        sampler = samplers[pspace]
        return sampler(pmin, pmax, pn)
''', '''        if pspace in ("linear", "lin"):
            return np.linspace(pmin, pmax, pn)
        if pspace in ("log", "logarithmic"):
            return np.geomspace(pmin, pmax, pn)
        raise KeyError(pspace)
'''))
E("wft-normalize-if", "wavefieldtransforms.py", ('''        # Select normalization.
        register = {"none": (np.abs,
                             lambda x: 1.),
                    "absolute-maximum": (lambda x: np.abs(x)/np.max(np.abs(x)),
                                         lambda x: np.max(np.abs(x))),
                    "frequency-maximum": (lambda x: np.abs(x)/np.max(np.abs(x), axis=0),
                                          lambda x: np.max(np.abs(x), axis=0))
                    }
        to_norm, to_abs = register[by]

''', '''        if by not in ("none", "absolute-maximum", "frequency-maximum"):
            raise KeyError(by)

'''), ('''        # Normalize power
        self.power, self._to_abs = (to_norm(self.power), to_abs(self.power))
''', '''        # Normalize power
        magnitude = np.abs(self.power)
        if by == "none":
            scale = 1.
        elif by == "absolute-maximum":
            scale = np.max(magnitude)
        else:
            scale = np.max(magnitude, axis=0)
        self.power = magnitude/scale
        self._to_abs = scale
'''))
E("wft-peak-early", "wavefieldtransforms.py", ('''        if by == "frequency-maximum":
            return self.velocities[np.argmax(np.abs(self.power), axis=0)]
        else:
            msg = f"find_peak_power by {by} not recognized, see docs for options."
            raise NotImplementedError(msg)
''', '''        if by != "frequency-maximum":
            raise NotImplementedError(f"find_peak_power by {by} not recognized, see docs for options.")
        rows = np.argmax(np.abs(self.power), axis=0)
        return self.velocities[rows]
'''))
E("wft-stack-locals", "wavefieldtransforms.py", ('''            self.power = (self.power*self.n + other.power*other.n)
            self.power /= (self.n+other.n)
''', '''            count = self.n + other.n
            self.power = (self.power*self.n + other.power*other.n)/count
'''))
E("wft-slant-simple", "wavefieldtransforms.py", ('''        pre_float_indices = position.reshape(nchannels, 1)/dt
        previous_lower_indices = np.zeros((nchannels, 1), dtype=int)
        for i, velocity in enumerate(velocities):
            float_indices = pre_float_indices/velocity
            lower_indices = np.array(float_indices, dtype=int)
            delta = float_indices - lower_indices
            cols += lower_indices - previous_lower_indices
            amplitudes = tmatrix[rows, cols] * \\
                (1-delta) + tmatrix[rows, cols+1]*delta
            integral = 0.5*diff*(amplitudes[1:, :] + amplitudes[:-1, :])
            summation = np.sum(integral, axis=0)
            slant_stack[i, :] = summation

            previous_lower_indices[:] = lower_indices
''', '''        pre_float_indices = position.reshape(nchannels, 1)/dt
        for i, velocity in enumerate(velocities):
            float_indices = pre_float_indices/velocity
            lower_indices = np.array(float_indices, dtype=int)
            delta = float_indices - lower_indices
            shifted = cols + lower_indices
            lower = tmatrix[rows, shifted]
            upper = tmatrix[rows, shifted + 1]
            amplitudes = lower*(1-delta) + upper*delta
            slant_stack[i, :] = np.sum(0.5*diff*(amplitudes[1:, :] + amplitudes[:-1, :]), axis=0)
'''))
E("wft-phase-locals", "wavefieldtransforms.py", ('''            exponent = 1j * 2*np.pi/vel * offsets
            for col, (f_index, frq) in enumerate(zip(keep_ids, frequencies)):
                shift = np.exp(exponent*frq)
                inner = shift*fft[:, f_index]/np.abs(fft[:, f_index])
                integral = np.abs(np.sum(0.5*dx*(inner[:-1] + inner[1:])))
                power[row, col] = integral
''', '''            for col, f_index in enumerate(keep_ids):
                frq = frequencies[col]
                wavenumber = 2*np.pi*frq/vel
                spectrum = fft[:, f_index]
                inner = np.exp(1j*wavenumber*offsets)*(spectrum/np.abs(spectrum))
                power[row, col] = np.abs(np.sum(0.5*dx*(inner[:-1] + inner[1:])))
'''))
E("wft-phase-normalise-first", "wavefieldtransforms.py", ('''        # u(x,t) -> FFT -> U(x,f).
        fft = np.fft.fft(tmatrix)

        # Frequency vector.
''', '''        # u(x,t) -> FFT -> U(x,f).
        fft = np.fft.fft(tmatrix)
        phase = fft/np.abs(fft)

        # Frequency vector.
'''), ('''                inner = shift*fft[:, f_index]/np.abs(fft[:, f_index])
''', '''                inner = shift*phase[:, f_index]
'''))
E("wft-phase-swap-loops", "wavefieldtransforms.py", ('''        for row, vel in enumerate(velocities):
            exponent = 1j * 2*np.pi/vel * offsets
            for col, (f_index, frq) in enumerate(zip(keep_ids, frequencies)):
                shift = np.exp(exponent*frq)
                inner = shift*fft[:, f_index]/np.abs(fft[:, f_index])
                integral = np.abs(np.sum(0.5*dx*(inner[:-1] + inner[1:])))
                power[row, col] = integral
''', '''        for col, (f_index, frq) in enumerate(zip(keep_ids, frequencies)):
            normalized = fft[:, f_index]/np.abs(fft[:, f_index])
            for row, vel in enumerate(velocities):
                shift = np.exp(1j * 2*np.pi/vel * offsets * frq)
                inner = shift*normalized
                power[row, col] = np.abs(np.sum(0.5*dx*(inner[:-1] + inner[1:])))
'''))
E("wft-fdbf-kx", "wavefieldtransforms.py", ('''                kx[:] = 2*np.pi*f/v * offsets[:]
                steer[:, 0] = create_steering(kx)[:]
                _power = np.dot(np.dot(np.transpose(np.conjugate(steer)),
                                       weighted_sscm), steer)
                power[j, i] = _power
''', '''                wavenumber = 2*np.pi*f/v
                steer[:, 0] = create_steering(wavenumber*offsets)
                steer_h = np.conjugate(steer).T
                power[j, i] = np.dot(np.dot(steer_h, weighted_sscm), steer)
'''))
E("wft-fdbf-weights", "wavefieldtransforms.py", ('''        if weighting == "sqrt":
            offsets_n = offsets.reshape(array.nchannels, 1)
            offsets_h = np.transpose(np.conjugate(offsets_n))
            w = np.dot(offsets_n, offsets_h)
        else:
            w = np.ones((array.nchannels, array.nchannels))
''', '''        nchannels = array.nchannels
        if weighting != "sqrt":
            w = np.ones((nchannels, nchannels))
        else:
            column = offsets.reshape(nchannels, 1)
            w = np.dot(column, np.conjugate(column).T)
'''))
E("wft-fdbf-scm-outer", "wavefieldtransforms.py", ('''            for j in range(nblocks):
                tslice[:, 0] = transform[:, i, j]
                tslice_h[0, :] = np.conjugate(tslice)[:, 0]
                scm += np.dot(tslice, tslice_h)
            scm /= nblocks
            spatiospectral[:, :, i] = scm[:]
''', '''            for j in range(nblocks):
                tslice[:, 0] = transform[:, i, j]
                scm += np.dot(tslice, np.conjugate(tslice).T)
            spatiospectral[:, :, i] = scm/nblocks
'''))
E("wft-fk-dict", "wavefieldtransforms.py", ('''        settings = {**settings,
                    "fdbf-specific": {**settings.get("fdbf-specific", {}),
                                      "weighting": "none",
                                      "steering": "plane"}}

        return super().from_array(array, settings)''', '''        fdbf_specific = dict(settings.get("fdbf-specific", {}))
        fdbf_specific["weighting"] = "none"
        fdbf_specific["steering"] = "plane"
        fk_settings = dict(settings)
        fk_settings["fdbf-specific"] = fdbf_specific

        return super().from_array(array, fk_settings)'''))
E("wft-empty-shape", "wavefieldtransforms.py", ('''        # Create empty power tensor.
        nvel, nfrq = settings["nvel"], len(keep_ids)
        power = np.zeros((nvel, nfrq), dtype=complex)

        return cls(frequencies, velocities, power)
''', '''        # Create empty power tensor.
        shape = (settings["nvel"], len(keep_ids))
        return cls(frequencies, velocities, np.zeros(shape, dtype=complex))
'''))
E("wft-slant-transform", "wavefieldtransforms.py", ('''        # Perform slant-stack
        nsamples = array[0].nsamples
        slant_stack = cls.slant_stack(array, velocities)

        # Frequency vector
        sensor = array[0]
        frequencies = np.arange(nsamples) * sensor._df
''', '''        # Frequency vector
        sensor = array.sensors[0]
        nsamples = sensor.nsamples
        frequencies = sensor._df * np.arange(nsamples)

        # Perform slant-stack
        slant_stack = cls.slant_stack(array, velocities)
'''))

# ---------------------------------------------------------------- snr / register / masw / workflows
E("snr-helper", "snr.py", ('''        # Compute SNR
        s_tseries = signal.timeseriesmatrix()
        snr = np.mean(np.abs(np.fft.fft(s_tseries)[:, keep_ids]), axis=0)
        n_tseries = noise.timeseriesmatrix()
        snr /= np.mean(np.abs(np.fft.fft(n_tseries)[:, keep_ids]), axis=0)

        return cls(frequencies, snr)
''', '''        # Compute SNR
        def mean_spectrum(array):
            spectra = np.abs(np.fft.fft(array.timeseriesmatrix()))
            return np.mean(spectra[:, keep_ids], axis=0)

        return cls(frequencies, mean_spectrum(signal)/mean_spectrum(noise))
'''))
E("snr-pad-loop", "snr.py", ('''            noise = Array1D.from_array1d(noise)
            signal = Array1D.from_array1d(signal)
            noise.zero_pad(df_snr)
            signal.zero_pad(df_snr)
''', '''            noise, signal = (Array1D.from_array1d(x) for x in (noise, signal))
            for window in (noise, signal):
                window.zero_pad(df_snr)
'''))
E("wf-finish-helper", "maswworkflows.py", ('''        self.calculate_snr()
        self.pad()
        proc = self.settings["processing"]
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
        transform = Transform.from_array(array=self.array, settings=proc)
        transform.array = self.array
        if self.settings["signal-to-noise"]["perform"]:
            transform.snr = self.snr.snr
            transform.snr_frequencies = self.snr.frequencies
        return transform


@MaswWorkflowRegistry.register("single")''', '''        self.calculate_snr()
        self.pad()
        return self._transform()

    def _transform(self):
        proc = self.settings["processing"]
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
        transform = Transform.from_array(array=self.array, settings=proc)
        transform.array = self.array
        if self.settings["signal-to-noise"]["perform"]:
            snr = self.snr
            transform.snr, transform.snr_frequencies = snr.snr, snr.frequencies
        return transform


@MaswWorkflowRegistry.register("single")'''))
E("wf-steps-loop", "maswworkflows.py", ('''        self.check()
        self.trim_offsets()
        self.detrend()
        self.select_noise()
        self.trim_time()
        self.mute()
        self.select_signal()
        self.calculate_snr()
        self.pad()
        proc = self.settings["processing"]
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
        transform = Transform.from_array(array=self.array, settings=proc)
        transform.array = self.array
        if self.settings["signal-to-noise"]["perform"]:
            transform.snr = self.snr.snr
            transform.snr_frequencies = self.snr.frequencies
        return transform


@MaswWorkflowRegistry.register("single")''', '''        steps = [self.check, self.trim_offsets, self.detrend,
                 self.select_noise, self.trim_time, self.mute,
                 self.select_signal, self.calculate_snr, self.pad]
        for step in steps:
            step()
        proc = self.settings["processing"]
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
        transform = Transform.from_array(array=self.array, settings=proc)
        transform.array = self.array
        if self.settings["signal-to-noise"]["perform"]:
            transform.snr = self.snr.snr
            transform.snr_frequencies = self.snr.frequencies
        return transform


@MaswWorkflowRegistry.register("single")'''))
E("wf-common-preprocess", "maswworkflows.py", ('''    @abstractmethod
    def run(self):  # pragma: no cover
        pass
''', '''    def _preprocess(self):
        self.check()
        self.trim_offsets()
        self.detrend()
        self.select_noise()
        self.trim_time()
        self.mute()
        self.select_signal()

    @abstractmethod
    def run(self):  # pragma: no cover
        pass
'''), ('''        self.array = Array1D.from_files(self.fnames, map_x=self.map_x,
                                        map_y=self.map_y)
        self.check()
        self.trim_offsets()
        self.detrend()
        self.select_noise()
        self.trim_time()
        self.mute()
        self.select_signal()
        self.calculate_snr()
''', '''        self.array = Array1D.from_files(self.fnames, map_x=self.map_x,
                                        map_y=self.map_y)
        self._preprocess()
        self.calculate_snr()
'''))
E("wf-mute-flat", "maswworkflows.py", ('''        if mute["apply"]:
            if self.signal_start is None and self.signal_end is None:
                if mute["method"] == "interactive":
                    kwargs = {"window_kwargs": mute["window_kwargs"]} if mute.get("window_kwargs") else {}
                    self.signal_start, self.signal_end = self.array.interactive_mute(**kwargs)
                # TODO (jpv): Implement predefined times for muting.
                else:
                    msg = f"mute type {mute['method']} is unknown, use 'interactive'."
                    raise KeyError(msg)
            else:
                self.array.mute(signal_start=self.signal_start,
                                signal_end=self.signal_end,
                                window_kwargs=mute.get("window_kwargs") or None,
                                )
''', '''        if not mute["apply"]:
            return
        window_kwargs = mute.get("window_kwargs") or None
        if self.signal_start is not None or self.signal_end is not None:
            self.array.mute(signal_start=self.signal_start,
                            signal_end=self.signal_end,
                            window_kwargs=window_kwargs)
            return
        # TODO (jpv): Implement predefined times for muting.
        if mute["method"] != "interactive":
            msg = f"mute type {mute['method']} is unknown, use 'interactive'."
            raise KeyError(msg)
        kwargs = {}
        if window_kwargs:
            kwargs["window_kwargs"] = window_kwargs
        start, end = self.array.interactive_mute(**kwargs)
        self.signal_start = start
        self.signal_end = end
'''))
E("wf-noise-early", "maswworkflows.py", ('''        snr = self.settings["signal-to-noise"]
        if snr["perform"] and self.noise is None:
            # Copy array and trim noise.
            self.noise = Array1D.from_array1d(self.array)
            self.noise.trim(snr["noise"]["begin"], snr["noise"]["end"])
''', '''        snr = self.settings["signal-to-noise"]
        if not snr["perform"] or self.noise is not None:
            return
        # Copy array and trim noise.
        noise = Array1D.from_array1d(self.array)
        noise.trim(snr["noise"]["begin"], snr["noise"]["end"])
        self.noise = noise
'''))
E("wf-freq-reorder", "maswworkflows.py", ('''        Transform = WavefieldTransformRegistry.create_class("empty")
        proc = self.settings["processing"]
        running_stack = Transform.from_array(array=example_array,
                                             settings=proc)
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
''', '''        proc = self.settings["processing"]
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
        Empty = WavefieldTransformRegistry.create_class("empty")
        running_stack = Empty.from_array(array=example_array, settings=proc)
'''))
E("reg-get", "register.py", ('''        _class = cls.create_class(name)
        return _class(*args, **kwargs)
''', '''        return cls.create_class(name)(*args, **kwargs)
'''))
E("masw-run-inline", "masw.py", ('''        # Define workflow (instance) from Workflow (class).
        workflow = Workflow(fnames=fnames, settings=settings,
                            map_x=map_x, map_y=map_y)

        # Run and return.
        return workflow.run()

    @staticmethod
    def create''', '''        kwargs = dict(fnames=fnames, settings=settings, map_x=map_x, map_y=map_y)
        return Workflow(**kwargs).run()

    @staticmethod
    def create'''))
E("masw-settings-parts", "masw.py", ('''        return {"workflow": str(workflow),
                "pre-processing": {
                    "trim": {
                        "apply": bool(trim),
                        "begin": float(trim_begin),
                        "end": float(trim_end)
                    },
''', '''        trim_settings = {"apply": bool(trim),
                         "begin": float(trim_begin),
                         "end": float(trim_end)}
        if window_kwargs is None:
            window_kwargs = {}
        return {"workflow": str(workflow),
                "pre-processing": {
                    "trim": trim_settings,
'''), ('''{} if window_kwargs is None else dict(window_kwargs)''', '''dict(window_kwargs)'''))
E("masw-settings-dictcall", "masw.py", ('''                    "offsets": {
                        "min": float(min_offset),
                        "max": float(max_offset),
                    }
''', '''                    "offsets": Masw._limits("min", min_offset, "max", max_offset)
'''), ('''    @staticmethod
    def create_settings_dict(workflow="time-domain",
                             trim=False, trim_begin=0.0, trim_end=1.0,
                             mute=False, method="interactive",
                             window_kwargs=None, pad=False, df=1.0,
                             transform="fdbf", fmin=5, fmax=100, vmin=100,
                             vmax=1000, nvel=200, vspace="linear",
                             weighting="sqrt", steering="cylindrical",
                             snr=False, noise_begin=-0.5, noise_end=0.0,
                             signal_begin=0.0, signal_end=0.5,
                             pad_snr=True, df_snr=1.0, min_offset=0,
                             max_offset=np.inf):
''', '''    @staticmethod
    def _limits(begin_key, begin, end_key, end):
        return {begin_key: float(begin), end_key: float(end)}

    @staticmethod
    def create_settings_dict(workflow="time-domain",
                             trim=False, trim_begin=0.0, trim_end=1.0,
                             mute=False, method="interactive",
                             window_kwargs=None, pad=False, df=1.0,
                             transform="fdbf", fmin=5, fmax=100, vmin=100,
                             vmax=1000, nvel=200, vspace="linear",
                             weighting="sqrt", steering="cylindrical",
                             snr=False, noise_begin=-0.5, noise_end=0.0,
                             signal_begin=0.0, signal_end=0.5,
                             pad_snr=True, df_snr=1.0, min_offset=0,
                             max_offset=np.inf):
'''))

# ---------------------------------------------------------------- peaks
E("pk-props-private", "peaks.py", ('''        return 1/self.velocity

''', '''        return 1/self._velocity[self._valid]

'''), ('''        return self.velocity/self.frequency
''', '''        return self._wavelength[self._valid]
'''))
E("pk-wavenumber", "peaks.py", ('''        return 2*np.pi*self.frequency/self.velocity
''', '''        return 2*np.pi/self.wavelength
'''))
E("pk-parse-unique", "peaks.py", ('''                _, f, *_ = match.groups()
                if f in frequencies:
                    continue
                else:
                    frequencies.append(f)
        nfrequencies''', '''                f = match.groups()[1]
                if f not in frequencies:
                    frequencies.append(f)
        nfrequencies'''))
E("pk-parse-locals", "peaks.py", ('''                _, _frq, _slo, _azi, _ell, _noi, _pwr = match.groups()

                frqs[row, col] = float(_frq)
                vels[row, col] = 1/float(_slo)
                azis[row, col] = float(_azi)
                ells[row, col] = float(_ell)
                nois[row, col] = float(_noi)
                pwrs[row, col] = float(_pwr)
''', '''                values = [float(value) for value in match.groups()[1:]]
                frq, slo, azi, ell, noi, pwr = values

                frqs[row, col] = frq
                vels[row, col] = 1/slo
                azis[row, col] = azi
                ells[row, col] = ell
                nois[row, col] = noi
                pwrs[row, col] = pwr
'''))
E("pk-parse-clip", "peaks.py", ('''            nmaxima = int(regex.search(peak_data).groups()[0])
            nmaxima = max(1, nmaxima)
            nmaxima = min(100, nmaxima)

        frqs''', '''            nmaxima = min(100, max(1, int(regex.search(peak_data).groups()[0])))

        frqs'''))
E("pk-reject-where", "peaks.py", ('''        bool_array = np.zeros_like(xs, dtype=bool)
        np.greater(xs, x_min, out=bool_array, where=self._valid)
        np.less(xs, x_max, out=bool_array, where=bool_array)
        np.greater(ys, y_min, out=bool_array, where=bool_array)
        np.less(ys, y_max, out=bool_array, where=bool_array)

        return bool_array
''', '''        inside_x = (xs > x_min) & (xs < x_max)
        inside_y = (ys > y_min) & (ys < y_max)
        return self._valid & inside_x & inside_y
'''))
E("pk-limits-or", "peaks.py", ('''        else:
            np.greater(_attr, _max, out=bool_array, where=self._valid)
            np.less(_attr, _min, out=bool_array,
                    where=np.logical_and(self._valid, ~bool_array))

        self._reject(bool_array)
''', '''        else:
            too_large = _attr > _max
            too_small = _attr < _min
            bool_array = self._valid & (too_large | too_small)

        self._reject(bool_array)
'''))
E("pk-reject-and", "peaks.py", ('''        self._valid[bool_array] = False

''', '''        self._valid = np.logical_and(self._valid, ~bool_array)

'''))
E("pk-json-comp", "peaks.py", ('''        data = {}
        for attr in self.attrs:
            data[attr] = getattr(self, f"_{attr}").tolist()
        data["valid"] = self._valid.tolist()
''', '''        data = {attr: getattr(self, f"_{attr}").tolist() for attr in self.attrs}
        data["valid"] = self._valid.tolist()
'''))
E("pk-json-flat", "peaks.py", ('''        if append:
            with open(fname, "r") as f:
                data_to_update = json.load(f)
            if self.identifier in data_to_update.keys():
                msg = "Data already exists in file with identifier "
                msg += f"{self.identifier}, file left unmodified."
                raise KeyError(msg)
            else:
                data_to_update[self.identifier] = data
                with open(fname, "w") as f:
                    json.dump(data_to_update, f)
        else:
            data = {self.identifier: data}
            with open(fname, "w") as f:
                json.dump(data, f)
''', '''        contents = {}
        if append:
            with open(fname, "r") as f:
                contents = json.load(f)
            if self.identifier in contents:
                msg = "Data already exists in file with identifier "
                msg += f"{self.identifier}, file left unmodified."
                raise KeyError(msg)
        contents[self.identifier] = data
        with open(fname, "w") as f:
            json.dump(contents, f)
'''))
E("pk-from-json-items", "peaks.py", ('''        key_list = list(data.keys())
        if len(key_list) > 1:
''', '''        key_list = [key for key in data]
        if len(key_list) > 1:
'''), ('''        return cls.from_dict(data[key_list[0]], identifier=key_list[0])
''', '''        identifier = key_list[0]
        return cls.from_dict(data[identifier], identifier=identifier)
'''))
E("pk-from-dict-copy", "peaks.py", ('''        data_dict = dict(data_dict)
        valid = data_dict.pop("valid", None)

        obj = cls(identifier=identifier, **data_dict)
''', '''        valid = data_dict.get("valid")
        kwargs = {key: value for key, value in data_dict.items() if key != "valid"}

        obj = cls(identifier=identifier, **kwargs)
'''))
E("pk-version-helper", "peaks.py", ('''        regex = get_geopsy_version()
        major, minor, micro = regex.search(peak_data).groups()
        version = f"{major}.{minor}.{micro}"
        check_geopsy_version(version)

        return cls._parse_peaks(peak_data, wavetype=wavetype)
''', '''        version = ".".join(get_geopsy_version().search(peak_data).groups())
        check_geopsy_version(version)

        return cls._parse_peaks(peak_data, wavetype=wavetype)
'''))
E("pk-eq-flat", "peaks.py", ('''        # Check non-iterable attributes
        for key in ["identifier"]:
            try:
                if getattr(self, key) != getattr(other, key):
                    return False
            except AttributeError:
                return False
''', '''        # Check non-iterable attributes
        if getattr(self, "identifier", None) != getattr(other, "identifier", None):
            return False
'''))
E("pk-eq-hasattr", "peaks.py", ('''            try:
                myattr = getattr(self, attr)
                urattr = getattr(other, attr)
            except AttributeError:
                return False
            else:
                try:
                    if np.shape(myattr) != np.shape(urattr):
                        return False
                    if not np.allclose(myattr, urattr, equal_nan=True):
                        return False
                except ValueError:
                    return False
''', '''            if not hasattr(other, attr):
                return False
            myattr = getattr(self, attr)
            urattr = getattr(other, attr)
            if np.shape(myattr) != np.shape(urattr):
                return False
            if not np.allclose(myattr, urattr, equal_nan=True):
                return False
'''))
E("pk-simplify-flat", "peaks.py", ('''        # If 2D and has power, return values based on maximum.
        elif hasattr(self, "_power"):
            attr = getattr(self, f"_{attr}")
            decide = self._power

        # If 2D and missing power, return first available value.
        else:
            attr = getattr(self, f"_{attr}")
            decide = self._frequency

''', '''        # If 2D use power (if available), otherwise first available value.
        attr = getattr(self, f"_{attr}")
        decide = self._power if hasattr(self, "_power") else self._frequency

'''))
E("pk-simplify-cond", "peaks.py", ('''                if not valid:
                    continue
                if rowval > mval:
                    mindex = rindex
                    mval = rowval
''', '''                if valid and rowval > mval:
                    mindex, mval = rindex, rowval
'''))

# ---------------------------------------------------------------- peakssuite
E("ps-append-contains", "peakssuite.py", ('''        self._check_input(peaks)
        if peaks.identifier in self.ids:
            msg = "There already exists a member object with an "
            msg += f"identifier = {peaks.identifier}."
            raise KeyError(msg)
        self.peaks.append(peaks)
        self.ids.append(peaks.identifier)
''', '''        self._check_input(peaks)
        identifier = peaks.identifier
        if identifier in self.ids:
            raise KeyError(f"There already exists a member object with an identifier = {identifier}.")
        self.ids.append(identifier)
        self.peaks.append(peaks)
'''))
E("ps-from-peaks-iter", "peakssuite.py", ('''        obj = cls(peaks[0])

        if len(peaks) >= 1:
            for peak in peaks[1:]:
                obj.append(peak)

        return obj
''', '''        first, *others = peaks
        obj = cls(first)
        for peak in others:
            obj.append(peak)
        return obj
'''))
E("ps-from-suite-flat", "peakssuite.py", ('''        obj = cls.from_peaks(peakssuites[0].peaks)

        for peaksuite in peakssuites[1:]:
            for peak in peaksuite:
                obj.append(peak)

        return obj
''', '''        peaks = [peak for suite in peakssuites for peak in suite.peaks]
        return cls.from_peaks(peaks)
'''))
E("ps-json-enumerate", "peakssuite.py", ('''        append = False
        for peak in self.peaks:
            peak.to_json(fname, append=append)
            append = True
''', '''        for index, peak in enumerate(self.peaks):
            peak.to_json(fname, append=index > 0)
'''))
E("ps-json-merge", "peakssuite.py", ('''        dicts = []
        for fname in fnames:
            with open(fname, "r") as f:
                dicts.append(json.load(f))
        return cls.from_dict(dicts)
''', '''        def load(fname):
            with open(fname, "r") as f:
                return json.load(f)

        return cls.from_dict([load(fname) for fname in fnames])
'''))
E("ps-max-unique", "peakssuite.py", ('''            frequencies = []
            for match in regex.finditer(peak_data):
                _, f, *_ = match.groups()
                if f in frequencies:
                    continue
                else:
                    frequencies.append(f)

            regex = get_peak_from_max(wavetype=file_wavetype)
            found_times = []
            for found in regex.finditer(peak_data):
                start_time = found.groups()[0]
                if start_time in found_times:
                    continue
                found_times.append(start_time)
                peak = Peaks._parse_peaks(peak_data,
                                          wavetype=file_wavetype,
                                          start_time=start_time,
                                          frequencies=frequencies,
                                          nmaxima=nmaxima)
                peaks.append(peak)
''', '''            frequencies, start_times = [], []
            for match in regex.finditer(peak_data):
                start_time, frequency, *_ = match.groups()
                if frequency not in frequencies:
                    frequencies.append(frequency)
                if start_time not in start_times:
                    start_times.append(start_time)

            for start_time in start_times:
                peaks.append(Peaks._parse_peaks(peak_data,
                                                wavetype=file_wavetype,
                                                start_time=start_time,
                                                frequencies=frequencies,
                                                nmaxima=nmaxima))
'''))
E("ps-max-helper", "peakssuite.py", ('''            regex = get_nmaxima()
            nmaxima = int(regex.search(peak_data).groups()[0])
            nmaxima = max(1, nmaxima)
            nmaxima = min(100, nmaxima)

            regex = get_peak''', '''            nmaxima = cls._read_nmaxima(peak_data)

            regex = get_peak'''), ('''    @classmethod
    def from_peaks(cls, peaks):
''', '''    @staticmethod
    def _read_nmaxima(peak_data):
        found = int(get_nmaxima().search(peak_data).groups()[0])
        return min(max(found, 1), 100)

    @classmethod
    def from_peaks(cls, peaks):
'''))
E("ps-eq-all", "peakssuite.py", ('''        if len(self) != len(other):
            return False

        for mypeaks, urpeaks in zip(self.peaks, other.peaks):
            if mypeaks != urpeaks:
                return False

        return True''', '''        if len(self.peaks) != len(other.peaks):
            return False

        return all(mine == yours for mine, yours in zip(self.peaks, other.peaks))'''))
E("ps-eq-index", "peakssuite.py", ('''        for mypeaks, urpeaks in zip(self.peaks, other.peaks):
            if mypeaks != urpeaks:
                return False

        return True''', '''        for i in range(len(self.peaks)):
            if not self.peaks[i] == other.peaks[i]:
                return False
        return True'''))
E("ps-drop-helper", "peakssuite.py", ('''        # Initial
        i_nans = np.sum(np.isnan(data_matrix))
        i_nums = data_matrix.size - i_nans
''', '''        def count(matrix):
            nans = np.sum(np.isnan(matrix))
            return nans, matrix.size - nans

        # Initial
        i_nans, i_nums = count(data_matrix)
'''), ('''        r_nans = np.sum(np.isnan(data_matrix_1))
        r_nums = data_matrix_1.size - r_nans
''', '''        r_nans, r_nums = count(data_matrix_1)
'''), ('''        r_nans = np.sum(np.isnan(data_matrix_2))
        r_nums = data_matrix_2.size - r_nans
''', '''        r_nans, r_nums = count(data_matrix_2)
'''))
E("ps-indices-comp", "peakssuite.py", ('''        drop_indices = []
        for index, row in enumerate(data_matrix):
            n_nan = np.sum(np.isnan(row))
            n_tot = len(row)
            n_num = n_tot - n_nan
            p_num = n_num/n_tot
            if n_num < drop_if_fewer_count or p_num < drop_if_fewer_percent:
                drop_indices.append(index)
        return np.array(drop_indices, dtype=int)
''', '''        def drop(row):
            n_num = len(row) - np.sum(np.isnan(row))
            return n_num < drop_if_fewer_count or n_num/len(row) < drop_if_fewer_percent

        return np.array([index for index, row in enumerate(data_matrix) if drop(row)], dtype=int)
'''))
E("ps-to-array-if", "peakssuite.py", ('''            if np.sum(np.isnan(x)) + np.sum(np.isnan(y)):
                raise ValueError("NaN in x and or y!")
''', '''            n_nan = np.sum(np.isnan(x)) + np.sum(np.isnan(y))
            if n_nan > 0:
                raise ValueError("NaN in x and or y!")
'''))
E("ps-stat-guard", "peakssuite.py", ('''        npeaks = len(self.peaks)
        if npeaks < 3:
            msg = "Cannot calculate statistics on fewer than 3 `Peaks`."
            raise ValueError(msg)
''', '''        if len(self.peaks) <= 2:
            raise ValueError("Cannot calculate statistics on fewer than 3 `Peaks`.")
'''))
E("ps-reject-comp", "peakssuite.py", ('''        for peak in self.peaks:
            peak.reject_limits_outside(attribute, limits)
''', '''        for index in range(len(self.peaks)):
            self.peaks[index].reject_limits_outside(attr=attribute, limits=limits)
'''))

# ---------------------------------------------------------------- others
E("inv-locals", "inversion.py", ('''    a = np.matmul(covp0p0, dgdp.T)
    b = np.linalg.inv(covd0d0 + np.matmul(np.matmul(dgdp, covp0p0), dgdp.T))
    c = d0 - dm + np.matmul(dgdp, (pm-p0))
    return p0 + np.matmul(np.matmul(a, b), c)
''', '''    innovation_cov = dgdp @ covp0p0 @ dgdp.T + covd0d0
    gain = covp0p0 @ dgdp.T @ np.linalg.inv(innovation_cov)
    residual = d0 - dm + dgdp @ (pm - p0)
    return p0 + gain @ residual
'''))
E("inv-gain-helper", "inversion.py", ('''    a = np.matmul(covp0p0, dgdp.T)
    b = np.linalg.inv(covd0d0 + np.matmul(np.matmul(dgdp, covp0p0), dgdp.T))
    c = d0 - dm + np.matmul(dgdp, (pm-p0))
    return p0 + np.matmul(np.matmul(a, b), c)
''', '''    c = d0 - dm + np.matmul(dgdp, (pm-p0))
    return p0 + np.matmul(_gain(covp0p0, covd0d0, dgdp), c)
'''), ('''    a = np.matmul(covp0p0, dgdp.T)
    b = np.linalg.inv(covd0d0 + np.matmul(np.matmul(dgdp, covp0p0), dgdp.T))
    c = np.matmul(dgdp, covp0p0)
    return covp0p0 - np.matmul(np.matmul(a, b), c)''', '''    return covp0p0 - np.matmul(_gain(covp0p0, covd0d0, dgdp), np.matmul(dgdp, covp0p0))


def _gain(covp0p0, covd0d0, dgdp):
    a = np.matmul(covp0p0, dgdp.T)
    b = np.linalg.inv(covd0d0 + np.matmul(np.matmul(dgdp, covp0p0), dgdp.T))
    return np.matmul(a, b)'''))
E("inv-assoc", "inversion.py", ('''    return p0 + np.matmul(np.matmul(a, b), c)
''', '''    return p0 + np.matmul(a, np.matmul(b, c))
'''))
E("meta-early", "meta.py", ('''    if version not in SUPPORTED_GEOPSY_VERSIONS:
        msg = f"geopsy version {version} is not supported; "
        msg += f"use {SUPPORTED_GEOPSY_VERSIONS} instead."
        raise ValueError(msg)
''', '''    if version in SUPPORTED_GEOPSY_VERSIONS:
        return
    raise ValueError(f"geopsy version {version} is not supported; use {SUPPORTED_GEOPSY_VERSIONS} instead.")
'''))
E("rx-validate-guard", "regex.py", ('''    if wavetype in ("rayleigh", "love", "vertical", "radial", "transverse"):
        return wavetype.capitalize()
    else:
        raise ValueError(f"wavetype={wavetype}, not recognized.")
''', '''    if wavetype not in ["rayleigh", "love", "vertical", "radial", "transverse"]:
        raise ValueError(f"wavetype={wavetype}, not recognized.")
    return wavetype.capitalize()
'''))
E("rx-validate-table", "regex.py", ('''    if wavetype in ("rayleigh", "love", "vertical", "radial", "transverse"):
        return wavetype.capitalize()
    else:
        raise ValueError(f"wavetype={wavetype}, not recognized.")
''', '''    names = {"rayleigh": "Rayleigh", "love": "Love", "vertical": "Vertical",
             "radial": "Radial", "transverse": "Transverse"}
    try:
        return names[wavetype]
    except KeyError:
        raise ValueError(f"wavetype={wavetype}, not recognized.")
'''))
E("rx-pattern-format", "regex.py", ('''    pattern = rf"(?<!\\S)({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1"
    return re.compile(pattern)
''', '''    number = f"({NUMBER})"
    fields = [f"({time})", f"({frequency})", wavetype, number, number, number, f"({NUMBER}|-?inf|nan)", number, "1"]
    return re.compile(r"(?<!\\S)" + " ".join(fields))
'''))
E("rx-all-one", "regex.py", ('''        pattern = rf"(?<!\\S){time} .* 1"
    else:
        wavetype = validate_wavetypes(wavetype)
        pattern = rf"(?<!\\S){time} .* {wavetype} .* 1"
    return re.compile(pattern)
''', '''        return re.compile(rf"(?<!\\S){time} .* 1")
    return re.compile(rf"(?<!\\S){time} .* {validate_wavetypes(wavetype)} .* 1")
'''))


# ================================================================ second round
E("b-ats-check-helpers", "activetimeseries.py", ('''        nstacks = int(nstacks)
        if nstacks <= 0:
            msg = f"nstacks must be greater than zero, not {nstacks}."
            raise ValueError(msg)

        delay = float(delay)
        if delay > 0:
            msg = f"delay must be less than or equal to zero, not {delay}."
            raise ValueError(msg)

        return (nstacks, delay)
''', '''        return (ActiveTimeSeries._check_nstacks(nstacks),
                ActiveTimeSeries._check_delay(delay))

    @staticmethod
    def _check_nstacks(value):
        value = int(value)
        if not value > 0:
            raise ValueError(f"nstacks must be greater than zero, not {value}.")
        return value

    @staticmethod
    def _check_delay(value):
        value = float(value)
        if value > 0:
            raise ValueError(f"delay must be less than or equal to zero, not {value}.")
        return value
'''))
E("b-ats-stack-mean", "activetimeseries.py", ('''        self._amp = (self._amp*self.nstacks +
                     timeseries._amp*timeseries.nstacks)
        self._amp /= (self.nstacks + timeseries.nstacks)
        self._nstacks += timeseries.nstacks
''', '''        mine, yours = self.nstacks, timeseries.nstacks
        self._amp = self._weighted_mean(self._amp, mine, timeseries._amp, yours)
        self._nstacks = mine + yours

    @staticmethod
    def _weighted_mean(a, na, b, nb):
        return (a*na + b*nb) / (na + nb)
'''))
E("b-ats-similar-any", "activetimeseries.py", ('''        for attr in ["dt", "nstacks", "delay", "nsamples"]:
            if attr in exclude:
                continue
            if getattr(self, attr) != getattr(other, attr):
                return False
        return True

    def __eq__''', '''        return not any(attr not in exclude and getattr(self, attr) != getattr(other, attr)
                       for attr in ("dt", "nstacks", "delay", "nsamples"))

    def __eq__'''))
E("b-ats-pad-helper", "activetimeseries.py", ('''        self._amp = np.concatenate((self._amp, np.zeros((1, padding))), axis=1)
''', '''        self._append_zeros(padding)

    def _append_zeros(self, n):
        """Append `n` zeros to the end of the record."""
        zeros = np.zeros((1, n))
        self._amp = np.concatenate((self._amp, zeros), axis=1)
'''))
E("b-ats-pad-pad", "activetimeseries.py", ('''        if new_nsamples > self.nsamples:
            padding = new_nsamples - self.nsamples
''', '''        nsamples = self.nsamples
        if new_nsamples == nsamples:
            return
        if new_nsamples > nsamples:
            padding = new_nsamples - nsamples
'''), ('''        elif new_nsamples < self.nsamples:
            # If df_old is already an integer of df_new
            if self.nsamples % new_nsamples == 0:
                self._multiple = int(self.nsamples/new_nsamples)
                return
            # If df_old is not already an integer of df_new, pad existing series.
            else:
                padding = new_nsamples - (self.nsamples % new_nsamples)
                self._multiple = int((self.nsamples + padding) / new_nsamples)
        # If new_samples == nsamples, do nothing.
        else:
            return
''', '''        else:
            remainder = nsamples % new_nsamples
            if remainder == 0:
                self._multiple = nsamples//new_nsamples
                return
            padding = new_nsamples - remainder
            self._multiple = (nsamples + padding)//new_nsamples
'''))
E("b-ats-trim-swap", "activetimeseries.py", ('''        super().trim(start_time, end_time)
        self._delay = start_time
''', '''        super().trim(start_time=start_time, end_time=end_time)
        new_delay = start_time
        self._delay = new_delay
'''))
E("b-ats-copy-setattr", "activetimeseries.py", ('''        obj._delay = activetimeseries.delay
        obj._multiple = activetimeseries.multiple
        return obj
''', '''        for name in ("delay", "multiple"):
            setattr(obj, f"_{name}", getattr(activetimeseries, name))
        return obj
'''))
E("b-ats-time-locals", "activetimeseries.py", ('''        return super().time + self._delay
''', '''        from_start = super().time
        return self.delay + from_start
'''))
E("b-s1c-position-tuple", "sensor1c.py", ('''        self._x = float(x)
        self._y = float(y)
        self._z = float(z)
''', '''        self._x, self._y, self._z = (float(value) for value in (x, y, z))
'''))
E("b-s1c-header-shared", "sensor1c.py", ('''        header = trace.stats.su.trace_header

        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
        if nstacks == 0:
            msg = "Resetting nstacks from zero to one."
            warnings.warn(msg)
            nstacks = 1

        scaleco = cls._safely_get_header(header, "scalar_to_be_applied_to_all_coordinates", 1, int)
        if scaleco == 0:
            msg = "Resetting scale to be applied to all coordinates from zero to one."
            warnings.warn(msg)
            scaleco = 1

        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

        return cls.from_trace(trace,
                              read_header=False,
                              format="SU",
                              nstacks=nstacks,
                              delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
                              x=map_x(x),
                              y=map_y(y),
                              z=0)
''', '''        return cls._from_segy_style_header(trace, trace.stats.su.trace_header, "SU", map_x, map_y)

    @classmethod
    def _from_segy_style_header(cls, trace, header, fmt, map_x, map_y):
        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
        if nstacks == 0:
            warnings.warn("Resetting nstacks from zero to one.")
            nstacks = 1

        scaleco = cls._safely_get_header(header, "scalar_to_be_applied_to_all_coordinates", 1, int)
        if scaleco == 0:
            warnings.warn("Resetting scale to be applied to all coordinates from zero to one.")
            scaleco = 1
        ndigits = -np.sign(scaleco) * int(np.log10(abs(scaleco)))

        coordinates = []
        for key in ("group_coordinate_x", "group_coordinate_y"):
            raw = cls._safely_get_header(header, key, 0, int)
            if scaleco < 0:
                value = raw / abs(scaleco)
            else:
                value = raw * scaleco
            coordinates.append(round(value, ndigits))
        x, y = coordinates

        delay = cls._safely_get_header(header, "delay_recording_time", 0, int)/1000
        return cls.from_trace(trace, read_header=False, format=fmt, nstacks=nstacks,
                              delay=delay, x=map_x(x), y=map_y(y), z=0)
'''), ('''        header = trace.stats.segy.trace_header

        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
        if nstacks == 0:
            msg = "Resetting nstacks from zero to one."
            warnings.warn(msg)
            nstacks = 1

        scaleco = cls._safely_get_header(header, "scalar_to_be_applied_to_all_coordinates", 1, int)
        if scaleco == 0:
            msg = "Resetting scale to be applied to all coordinates from zero to one."
            warnings.warn(msg)
            scaleco = 1

        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

        return cls.from_trace(trace,
                              read_header=False,
                              format="SEGY",
                              nstacks=nstacks,
                              delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
                              x=map_x(x),
                              y=map_y(y),
                              z=0)
''', '''        return cls._from_segy_style_header(trace, trace.stats.segy.trace_header, "SEGY", map_x, map_y)
'''))
E("b-s1c-read-header-first", "sensor1c.py", ('''        if read_header:
            if _format == "SEG2":
                return cls._from_trace_seg2(trace, map_x=map_x, map_y=map_y)
            elif _format == "SU":
                return cls._from_trace_su(trace, map_x=map_x, map_y=map_y)
            elif _format == "SEGY":
                return cls._from_trace_segy(trace, map_x=map_x, map_y=map_y)
            else:
                raise NotImplementedError
        else:
            return cls(amplitude=trace.data, dt=trace.stats.delta,
                       x=x, y=y, z=z, nstacks=nstacks, delay=delay)
''', '''        if not read_header:
            return cls(amplitude=trace.data, dt=trace.stats.delta,
                       x=x, y=y, z=z, nstacks=nstacks, delay=delay)
        if _format not in ("SEG2", "SU", "SEGY"):
            raise NotImplementedError
        reader = getattr(cls, f"_from_trace_{_format.lower()}")
        return reader(trace, map_x=map_x, map_y=map_y)
'''))
E("b-s1c-copy-kwargs", "sensor1c.py", ('''        arg_map = {"amplitude": lambda x: x, "dt": lambda x: x,
                   "x": float, "y": float, "z": float}
        args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]

        obj = cls(*args, nstacks=int(sensor1c.nstacks))
''', '''        coordinates = {name: float(getattr(sensor1c, name)) for name in "xyz"}
        obj = cls(sensor1c.amplitude, sensor1c.dt,
                  nstacks=int(sensor1c.nstacks), **coordinates)
'''))
E("b-s1c-similar-compact", "sensor1c.py", ('''        for attr in ["x", "y", "z"]:
            if attr in exclude:
                continue
            if getattr(self, attr) != getattr(other, attr):
                return False

        if not super()._is_similar(other, exclude=exclude):
            return False

        return True
''', '''        same_position = all(getattr(self, attr) == getattr(other, attr)
                            for attr in ["x", "y", "z"] if attr not in exclude)
        return same_position and super()._is_similar(other, exclude=exclude)
'''))
E("b-arr-check-unique", "array1d.py", ('''        example = sensors[0]
        positions = [example.x]

        # Ensure sensors are "similar"
        for sensor in sensors[1:]:
            if not example._is_similar(sensor, exclude=["x", "y", "z"]):
                raise ValueError("All sensors must be similar.")
            if sensor.x in positions:
                raise ValueError("Sensors must have unique x positions.")
            positions.append(sensor.x)

        # Sort sensors in terms of x from small to large
        indices = np.argsort(positions)
        sensors = [sensors[i] for i in indices]

        return (sensors, source)
''', '''        first, others = sensors[0], sensors[1:]
        xs = [first.x]
        for other in others:
            similar = first._is_similar(other, exclude=["x", "y", "z"])
            if not similar:
                raise ValueError("All sensors must be similar.")
            x = other.x
            if x in xs:
                raise ValueError("Sensors must have unique x positions.")
            xs.append(x)
        return ([sensors[i] for i in np.argsort(xs)], source)
'''))
E("b-arr-check-sorted", "array1d.py", ('''        # Sort sensors in terms of x from small to large
        indices = np.argsort(positions)
        sensors = [sensors[i] for i in indices]

        return (sensors, source)
''', '''        # Sort sensors in terms of x from small to large
        sensors = sorted(sensors, key=lambda sensor: sensor.x)

        return (sensors, source)
'''))
E("b-arr-offsets-while", "array1d.py", ('''        positions = self.position(normalize=False)
        offsets = []
        for position in positions:
            offsets.append(abs(self.source._x - position))
        return offsets
''', '''        source_x = self.source._x
        return [abs(position - source_x) for position in self.position()]
'''))
E("b-arr-matrix-steps", "array1d.py", ('''        matrix = np.empty((self.nchannels, self[0].nsamples))
        for i, sensor in enumerate(self.sensors):
            _amp = sensor.amplitude
            amp = signal.detrend(_amp) if detrend else _amp
            amp = amp/np.max(np.abs(amp)) if normalize == "each" else amp
            matrix[i, :] = amp

        if normalize == "all":
            matrix /= np.max(np.abs(matrix))

        return matrix
''', '''        matrix = np.empty((self.nchannels, self[0].nsamples))
        for row in range(self.nchannels):
            matrix[row, :] = self._prepared_amplitude(self.sensors[row], detrend, normalize)
        if normalize != "all":
            return matrix
        return matrix/np.max(np.abs(matrix))

    @staticmethod
    def _prepared_amplitude(sensor, detrend, normalize):
        amplitude = sensor.amplitude
        if detrend:
            amplitude = signal.detrend(amplitude)
        if normalize == "each":
            amplitude = amplitude/np.max(np.abs(amplitude))
        return amplitude
'''))
E("b-arr-spacing-diffs", "array1d.py", ('''        position = self.position()
        min_spacing = min(np.diff(position))
        max_spacing = max(np.diff(position))
        if (max_spacing - min_spacing) < 1E-2:
            return round(min_spacing, 2)
        else:
            raise ValueError("spacing undefined for non-equally spaced arrays")
''', '''        spacings = np.diff(self.position())
        smallest, largest = min(spacings), max(spacings)
        if largest - smallest >= 1E-2:
            raise ValueError("spacing undefined for non-equally spaced arrays")
        return round(smallest, 2)
'''))
E("b-arr-trim-offsets-keep", "array1d.py", ('''        sensors = []
        for offset, sensor in zip(self.offsets, self.sensors):
            if (offset > min_offset) and (offset < max_offset):
                sensors.append(sensor)

        if len(sensors) == 0:
''', '''        offsets = self.offsets
        keep = [i for i in range(len(self.sensors)) if min_offset < offsets[i] < max_offset]
        sensors = [self.sensors[i] for i in keep]

        if not sensors:
'''))
E("b-arr-mute-lines", "array1d.py", ('''        # Define starting index for each trace.
        if signal_start is not None:
            ((x1, t1), (x2, t2)) = signal_start
            slope = (t2 - t1) / (x2 - x1)
            times = t1 + slope*(position - x1)
            start_indices = np.array((times / dt) + ndelay, dtype=int)
        else:
            start_indices = np.zeros_like(position, dtype=int)

        # Define stopping index for each trace.
        if signal_end is not None:
            ((x1, t1), (x2, t2)) = signal_end
            slope = (t2 - t1) / (x2 - x1)
            times = t1 + slope*(position - x1)
            stop_indices = np.array((times / dt) + ndelay, dtype=int)
        else:
            stop_indices = np.ones_like(position, dtype=int) * (nsamples-1)
''', '''        def line_to_indices(line):
            ((x1, t1), (x2, t2)) = line
            slope = (t2 - t1) / (x2 - x1)
            times = t1 + slope*(position - x1)
            return np.array((times / dt) + ndelay, dtype=int)

        # Define starting index for each trace.
        if signal_start is None:
            start_indices = np.zeros_like(position, dtype=int)
        else:
            start_indices = line_to_indices(signal_start)

        # Define stopping index for each trace.
        if signal_end is None:
            stop_indices = np.full_like(position, nsamples-1, dtype=int)
        else:
            stop_indices = line_to_indices(signal_end)
'''))
E("b-arr-mute-zip3", "array1d.py", ('''        window = np.zeros(nsamples)
        for i, (start, stop) in enumerate(zip(start_indices, stop_indices)):
            window[start:stop] = signal.windows.tukey(stop-start,
                                                      **window_kwargs)
            self.sensors[i]._amp *= window
            window *= 0
''', '''        for sensor, start, stop in zip(self.sensors, start_indices, stop_indices):
            window = np.zeros(nsamples)
            taper = signal.windows.tukey(stop-start, **window_kwargs)
            window[start:stop] = taper
            sensor._amp *= window
'''))
E("b-arr-flipped-ternary", "array1d.py", ('''        if self._flip_required:
            offsets = self.offsets[::-1]
            tmatrix = np.flipud(self.timeseriesmatrix())
        else:
            offsets = self.offsets
            tmatrix = self.timeseriesmatrix()
        offsets = np.array(offsets)
        return (tmatrix, offsets)
''', '''        tmatrix = self.timeseriesmatrix()
        offsets = np.array(self.offsets)
        if not self._flip_required:
            return (tmatrix, offsets)
        return (tmatrix[::-1], offsets[::-1])
'''))
E("b-arr-eq-all", "array1d.py", ('''        if not self.is_similar(other):
            return False

        for my, ur in zip(self.sensors, other.sensors):
            if my != ur:
                return False

        return True
''', '''        return self.is_similar(other) and all(my == ur for my, ur in zip(self.sensors, other.sensors))
'''))
E("b-arr-files-helper", "array1d.py", ('''        # Read traces from first file
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            stream = obspy.read(str(fnames[0]), **obspy_read_kwargs)

        # Create array of sensors
        sensors = []
        for trace in stream.traces:
            sensor = Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
            sensors.append(sensor)
''', '''        def read(fname):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return obspy.read(str(fname), **obspy_read_kwargs)

        def to_sensors(traces):
            return [Sensor1C.from_trace(t, map_x=map_x, map_y=map_y) for t in traces]

        stream = read(fnames[0])
        sensors = to_sensors(stream.traces)
        trace = stream.traces[-1]
'''), ('''        if len(fnames) > 0:
            for fname in fnames[1:]:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    stream = obspy.read(str(fname), **obspy_read_kwargs)
                nsource = parse_source(stream[0].stats)
                if nsource != source:
                    msg = f"fname = {fname} has an incompatible source."
                    raise ValueError(msg)
                new_sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
                               for trace in stream.traces]
                new = cls(new_sensors, nsource)
''', '''        if len(fnames) > 0:
            for fname in fnames[1:]:
                stream = read(fname)
                nsource = parse_source(stream[0].stats)
                if nsource != source:
                    msg = f"fname = {fname} has an incompatible source."
                    raise ValueError(msg)
                new = cls(to_sensors(stream.traces), nsource)
'''))
E("b-arr-files-append", "array1d.py", ('''                for sensor, new_sensor in zip(obj.sensors, new.sensors):
                    sensor.stack_append(new_sensor)
''', '''                for index in range(obj.nchannels):
                    obj[index].stack_append(new[index])
'''))
E("b-arr-files-noguard", "array1d.py", ('''        if len(fnames) > 0:
            for fname in fnames[1:]:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    stream = obspy.read(str(fname), **obspy_read_kwargs)
                nsource = parse_source(stream[0].stats)
                if nsource != source:
                    msg = f"fname = {fname} has an incompatible source."
                    raise ValueError(msg)
                new_sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
                               for trace in stream.traces]
                new = cls(new_sensors, nsource)
                if new.nchannels != obj.nchannels:
                    msg = f"fname = {fname} has an incompatible number of channels."
                    raise ValueError(msg)
                for sensor, new_sensor in zip(obj.sensors, new.sensors):
                    sensor.stack_append(new_sensor)

        return obj
''', '''        for fname in fnames[1:]:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                stream = obspy.read(str(fname), **obspy_read_kwargs)
            nsource = parse_source(stream[0].stats)
            if not nsource == source:
                raise ValueError(f"fname = {fname} has an incompatible source.")
            new = cls([Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
                       for trace in stream.traces], nsource)
            if len(new.sensors) != len(obj.sensors):
                raise ValueError(f"fname = {fname} has an incompatible number of channels.")
            for sensor, new_sensor in zip(obj.sensors, new.sensors):
                sensor.stack_append(new_sensor)

        return obj
'''))
E("b-arr-write-scale", "array1d.py", ('''        def rint(x): return int(round(x))

        for sensor in self.sensors:
            trace = obspy.Trace(np.array(sensor.amplitude, dtype=np.float32))
''', '''        def rint(x):
            return int(round(x))

        def to_milli(value):
            return rint(value*1000)

        for sensor in self.sensors:
            amplitude = np.array(sensor.amplitude, dtype=np.float32)
            trace = obspy.Trace(amplitude)
'''), ('''            trace.stats.su.trace_header.delay_recording_time = rint(
                sensor.delay*1000)
            trace.stats.su.trace_header.group_coordinate_x = rint(
                sensor.x*1000)
            trace.stats.su.trace_header.group_coordinate_y = rint(
                sensor.y*1000)
''', '''            header = trace.stats.su.trace_header
            header.delay_recording_time = to_milli(sensor.delay)
            header.group_coordinate_x = to_milli(sensor.x)
            header.group_coordinate_y = to_milli(sensor.y)
'''))
E("b-arr-copy-direct", "array1d.py", ('''        sensors = []
        for _sensor in array1d.sensors:
            sensors.append(Sensor1C.from_sensor1c(_sensor))
        source = Source.from_source(array1d.source)
        obj = cls(sensors, source)
        return obj
''', '''        source = Source.from_source(array1d.source)
        return cls(list(map(Sensor1C.from_sensor1c, array1d.sensors)), source)
'''))


# ---------------------------------------------------------------- second round: transforms, workflows
E("b-wft-vector-chain", "wavefieldtransforms.py", ('''        samplers = {"linear": np.linspace, "lin": np.linspace,
                    "log": np.geomspace, "logarithmic": np.geomspace}
        sampler = samplers[pspace]
        return sampler(pmin, pmax, pn)
''', '''        if pspace in ("linear", "lin"):
            return np.linspace(pmin, pmax, pn)
        if pspace in ("log", "logarithmic"):
            return np.geomspace(pmin, pmax, pn)
        raise KeyError(pspace)
'''))
E("b-wft-vector-shared", "wavefieldtransforms.py", ('''        # Create velocity vector.
        vels = cls._create_vector(settings["vmin"], settings["vmax"],
                                  settings["nvel"], settings["vspace"])
''', '''        vels = cls._velocities_from(settings)
'''), ('''        # Create velocity vector.
        velocities = cls._create_vector(settings["vmin"], settings["vmax"],
                                        settings["nvel"], settings["vspace"])
''', '''        velocities = cls._velocities_from(settings)
'''), ('''    @staticmethod
    def _frequency_keep_ids(''', '''    @classmethod
    def _velocities_from(cls, settings):
        keys = ("vmin", "vmax", "nvel", "vspace")
        return cls._create_vector(*[settings[key] for key in keys])

    @staticmethod
    def _frequency_keep_ids('''))
E("b-wft-keep-nearest", "wavefieldtransforms.py", ('''        fmin_ids = np.argmin(np.abs(frequencies-fmin))
        fmax_ids = np.argmin(np.abs(frequencies-fmax))
        keep_ids = range(fmin_ids, (fmax_ids+1), multiple)
        return keep_ids
''', '''        def nearest(value):
            return np.argmin(np.abs(value - frequencies))

        first, last = nearest(fmin), nearest(fmax)
        return range(first, last + 1, multiple)
'''))
E("b-wft-normalize-assign", "wavefieldtransforms.py", ('''        self.power *= self._to_abs
''', '''        self.power = self.power*self._to_abs
'''))
E("b-wft-stack-total", "wavefieldtransforms.py", ('''        try:
            self.power = (self.power*self.n + other.power*other.n)
            self.power /= (self.n+other.n)
        except AttributeError as e:
''', '''        try:
            total = self.n + other.n
            self.power = (self.power*self.n + other.power*other.n)/total
        except AttributeError as e:
'''))
E("b-wft-empty-size", "wavefieldtransforms.py", ('''        nvel, nfrq = settings["nvel"], len(keep_ids)
        power = np.zeros((nvel, nfrq), dtype=complex)
''', '''        shape = (settings["nvel"], len(keep_ids))
        power = np.zeros(shape, dtype=complex)
'''))
E("b-wft-freqs-shared", "wavefieldtransforms.py", ('''        # Frequency vector.
        sensor = array.sensors[0]
        frqs = np.arange(sensor.nsamples)*sensor._df

        # Trim and downsample frequencies.
        keep_ids = cls._frequency_keep_ids(frqs,
                                           settings["fmin"],
                                           settings["fmax"],
                                           sensor.multiple)
        frequencies = frqs[keep_ids]

        # Integrate across the array offsets.
''', '''        frequencies, keep_ids = cls._kept_frequencies(array.sensors[0], settings)

        # Integrate across the array offsets.
'''), ('''        # Frequency vector
        frqs = np.arange(sensor.nsamples)*sensor._df

        # Trim and downsample frequencies.
        keep_ids = cls._frequency_keep_ids(frqs, settings["fmin"],
                                           settings["fmax"], sensor.multiple)
        frequencies = frqs[keep_ids]

        # Calculate the spatiospectral correlation matrix
''', '''        frequencies, keep_ids = cls._kept_frequencies(sensor, settings)

        # Calculate the spatiospectral correlation matrix
'''), ('''    @staticmethod
    def _frequency_keep_ids(''', '''    @classmethod
    def _kept_frequencies(cls, sensor, settings):
        """Frequencies to process and their positions in the FFT."""
        every = np.arange(sensor.nsamples)*sensor._df
        ids = cls._frequency_keep_ids(every, settings["fmin"],
                                      settings["fmax"], sensor.multiple)
        return every[ids], ids

    @staticmethod
    def _frequency_keep_ids('''))
E("b-wft-phase-range", "wavefieldtransforms.py", ('''        for row, vel in enumerate(velocities):
            exponent = 1j * 2*np.pi/vel * offsets
            for col, (f_index, frq) in enumerate(zip(keep_ids, frequencies)):
                shift = np.exp(exponent*frq)
                inner = shift*fft[:, f_index]/np.abs(fft[:, f_index])
                integral = np.abs(np.sum(0.5*dx*(inner[:-1] + inner[1:])))
                power[row, col] = integral
''', '''        for row in range(len(velocities)):
            slowness = 1/velocities[row]
            for col in range(len(frequencies)):
                spectrum = fft[:, keep_ids[col]]
                shift = np.exp(1j*2*np.pi*frequencies[col]*slowness*offsets)
                shifted = shift*(spectrum/np.abs(spectrum))
                trapezoids = 0.5*dx*(shifted[1:] + shifted[:-1])
                power[row, col] = np.abs(np.sum(trapezoids))
'''))
E("b-wft-phase-helper", "wavefieldtransforms.py", ('''                inner = shift*fft[:, f_index]/np.abs(fft[:, f_index])
                integral = np.abs(np.sum(0.5*dx*(inner[:-1] + inner[1:])))
                power[row, col] = integral
''', '''                inner = shift*fft[:, f_index]/np.abs(fft[:, f_index])
                power[row, col] = np.abs(cls._trapezoid(inner, dx))
'''), ('''        dx = offsets[1:] - offsets[:-1]
        for row, vel in enumerate(velocities):
''', '''        dx = np.diff(offsets)
        for row, vel in enumerate(velocities):
'''), ('''@WavefieldTransformRegistry.register('phaseshift')
class PhaseShift(AbstractWavefieldTransform):
''', '''@WavefieldTransformRegistry.register('phaseshift')
class PhaseShift(AbstractWavefieldTransform):

    @staticmethod
    def _trapezoid(values, spacing):
        mean = 0.5*(values[:-1] + values[1:])
        return np.sum(spacing*mean)
'''))
E("b-wft-fdbf-steer-method", "wavefieldtransforms.py", ('''        steering = fdbf_specific.get("steering")
        if steering == "cylindrical":
            def create_steering(kx):
                return np.exp(-1j * np.angle(special.j0(kx) + 1j*special.y0(kx)))
        else:
            def create_steering(kx):
                return np.exp(-1j * kx)
''', '''        cylindrical = fdbf_specific.get("steering") == "cylindrical"

        def create_steering(kx):
            phase = np.angle(special.j0(kx) + 1j*special.y0(kx)) if cylindrical else kx
            return np.exp(-1j*phase)
'''))
E("b-wft-fdbf-inner", "wavefieldtransforms.py", ('''                _power = np.dot(np.dot(np.transpose(np.conjugate(steer)),
                                       weighted_sscm), steer)
                power[j, i] = _power
''', '''                steer_h = np.conjugate(steer).T
                power[j, i] = steer_h.dot(weighted_sscm).dot(steer)
'''))
E("b-wft-scm-mean", "wavefieldtransforms.py", ('''            scm[:, :] = 0
            for j in range(nblocks):
                tslice[:, 0] = transform[:, i, j]
                tslice_h[0, :] = np.conjugate(tslice)[:, 0]
                scm += np.dot(tslice, tslice_h)
            scm /= nblocks
            spatiospectral[:, :, i] = scm[:]
''', '''            scm[:, :] = 0
            for block in range(nblocks):
                tslice[:, 0] = transform[:, i, block]
                scm += np.dot(tslice, np.conjugate(tslice).T)
            spatiospectral[:, :, i] = scm/nblocks
'''))
E("b-wft-fk-copy", "wavefieldtransforms.py", ('''        settings = {**settings,
                    "fdbf-specific": {**settings.get("fdbf-specific", {}),
                                      "weighting": "none",
                                      "steering": "plane"}}

        return super().from_array(array, settings)
''', '''        specific = dict(settings.get("fdbf-specific", {}))
        specific["weighting"] = "none"
        specific["steering"] = "plane"
        plain = dict(settings)
        plain["fdbf-specific"] = specific
        return super().from_array(array, plain)
'''))
E("b-wft-slant-inline", "wavefieldtransforms.py", ('''            integral = 0.5*diff*(amplitudes[1:, :] + amplitudes[:-1, :])
            summation = np.sum(integral, axis=0)
            slant_stack[i, :] = summation

            previous_lower_indices[:] = lower_indices
''', '''            means = (amplitudes[:-1, :] + amplitudes[1:, :])/2
            slant_stack[i, :] = np.sum(diff*means, axis=0)
            previous_lower_indices[:] = lower_indices
'''))
E("b-wft-slant-diff", "wavefieldtransforms.py", ('''        diff = position[1:] - position[:-1]
        diff = diff.reshape((len(diff), 1))
''', '''        diff = np.diff(position).reshape(-1, 1)
'''))
E("b-snr-spectrum", "snr.py", ('''        s_tseries = signal.timeseriesmatrix()
        snr = np.mean(np.abs(np.fft.fft(s_tseries)[:, keep_ids]), axis=0)
''', '''        def mean_spectrum(array):
            spectra = np.fft.fft(array.timeseriesmatrix())
            return np.mean(np.abs(spectra)[:, keep_ids], axis=0)

'''), ('''        n_tseries = noise.timeseriesmatrix()
        snr /= np.mean(np.abs(np.fft.fft(n_tseries)[:, keep_ids]), axis=0)

        return cls(frequencies, snr)
''', '''        return cls(frequencies, mean_spectrum(signal)/mean_spectrum(noise))
'''))
E("b-snr-check-locals", "snr.py", ('''        if noise[0].nsamples != signal[0].nsamples:
            msg''', '''        n_noise, n_signal = noise[0].nsamples, signal[0].nsamples
        if not n_noise == n_signal:
            msg'''))
E("b-wf-window-helper", "maswworkflows.py", ('''        snr = self.settings["signal-to-noise"]
        if snr["perform"] and self.noise is None:
            # Copy array and trim noise.
            self.noise = Array1D.from_array1d(self.array)
            self.noise.trim(snr["noise"]["begin"], snr["noise"]["end"])
''', '''        if self.noise is None:
            self.noise = self._window("noise")

    def _window(self, name):
        """Trimmed copy of the array, `None` if not required."""
        snr = self.settings["signal-to-noise"]
        if not snr["perform"]:
            return None
        window = Array1D.from_array1d(self.array)
        window.trim(snr[name]["begin"], snr[name]["end"])
        return window
'''), ('''        snr = self.settings["signal-to-noise"]
        if snr["perform"] and self.signal is None:
            # Copy array and trim noise.
            self.signal = Array1D.from_array1d(self.array)
            self.signal.trim(snr["signal"]["begin"], snr["signal"]["end"])
''', '''        if self.signal is None:
            self.signal = self._window("signal")
'''))
E("b-wf-trim-early", "maswworkflows.py", ('''        trim = self.settings["pre-processing"]["trim"]
        if trim["apply"]:
            self.array.trim(trim["begin"], trim["end"])
''', '''        trim = self.settings["pre-processing"]["trim"]
        if not trim["apply"]:
            return
        begin, end = trim["begin"], trim["end"]
        self.array.trim(begin, end)
'''))
E("b-wf-mute-swap", "maswworkflows.py", ('''        mute = self.settings["pre-processing"]["mute"]
        if mute["apply"]:
            if self.signal_start is None and self.signal_end is None:
                if mute["method"] == "interactive":
                    kwargs = {"window_kwargs": mute["window_kwargs"]} if mute.get("window_kwargs") else {}
                    self.signal_start, self.signal_end = self.array.interactive_mute(**kwargs)
                # TODO (jpv): Implement predefined times for muting.
                else:
                    msg = f"mute type {mute['method']} is unknown, use 'interactive'."
                    raise KeyError(msg)
            else:
                self.array.mute(signal_start=self.signal_start,
                                signal_end=self.signal_end,
                                window_kwargs=mute.get("window_kwargs") or None,
                                )
''', '''        mute = self.settings["pre-processing"]["mute"]
        if not mute["apply"]:
            return
        window_kwargs = mute.get("window_kwargs") or None
        if not (self.signal_start is None and self.signal_end is None):
            self.array.mute(signal_start=self.signal_start,
                            signal_end=self.signal_end,
                            window_kwargs=window_kwargs)
            return
        if mute["method"] != "interactive":
            raise KeyError(f"mute type {mute['method']} is unknown, use 'interactive'.")
        kwargs = {} if window_kwargs is None else {"window_kwargs": window_kwargs}
        start, end = self.array.interactive_mute(**kwargs)
        self.signal_start = start
        self.signal_end = end
'''))
E("b-wf-run-transform-helper", "maswworkflows.py", ('''        self.calculate_snr()
        self.pad()
        proc = self.settings["processing"]
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
        transform = Transform.from_array(array=self.array, settings=proc)
        transform.array = self.array
        if self.settings["signal-to-noise"]["perform"]:
            transform.snr = self.snr.snr
            transform.snr_frequencies = self.snr.frequencies
        return transform


@MaswWorkflowRegistry.register("single")
''', '''        self.calculate_snr()
        self.pad()
        transform = self._transform(self.array)
        transform.array = self.array
        if self.settings["signal-to-noise"]["perform"]:
            snr = self.snr
            transform.snr, transform.snr_frequencies = snr.snr, snr.frequencies
        return transform

    def _transform(self, array):
        processing = self.settings["processing"]
        cls = WavefieldTransformRegistry.create_class(processing["transform"])
        return cls.from_array(array=array, settings=processing)


@MaswWorkflowRegistry.register("single")
'''))
E("b-wf-freq-example", "maswworkflows.py", ('''        for sensor in example_array.sensors:
            sensor.detrend()
        preprocess = self.settings["pre-processing"]
        if preprocess["trim"]["apply"]:
            example_array.trim(preprocess["trim"]["begin"],
                               preprocess["trim"]["end"])
        if preprocess["pad"]["apply"]:
            example_array.zero_pad(preprocess["pad"]["df"])
''', '''        self._prepare_example(example_array)
'''), ('''@MaswWorkflowRegistry.register("frequency-domain")
class FrequencyDomainMaswWorkflow(AbstractMaswWorkflow):
    """Stack in the frequency-domain."""
''', '''@MaswWorkflowRegistry.register("frequency-domain")
class FrequencyDomainMaswWorkflow(AbstractMaswWorkflow):
    """Stack in the frequency-domain."""

    def _prepare_example(self, array):
        for sensor in array.sensors:
            sensor.detrend()
        preprocess = self.settings["pre-processing"]
        trim, pad = preprocess["trim"], preprocess["pad"]
        if trim["apply"]:
            array.trim(trim["begin"], trim["end"])
        if pad["apply"]:
            array.zero_pad(pad["df"])
'''))
E("b-wf-freq-read", "maswworkflows.py", ('''            self.array = Array1D.from_files(fname,
                                            map_x=self.map_x,
                                            map_y=self.map_y)
            if not self.array.is_similar(example_array):
                msg = "Can only stack arrays which are similar, "
                msg += f"first dissimilar file is {fname}."
                raise ValueError(msg)
            self.check()
''', '''            array = Array1D.from_files(fname, map_x=self.map_x, map_y=self.map_y)
            self.array = array
            if not array.is_similar(example_array):
                raise ValueError("Can only stack arrays which are similar, "
                                 f"first dissimilar file is {fname}.")
            self.check()
'''))
E("b-masw-groups", "masw.py", ('''        Workflow = MaswWorkflowRegistry.create_class(selected_workflow)

        # Define workflow (instance) from Workflow (class).
        workflow = Workflow(fnames=fnames, settings=settings,
                            map_x=map_x, map_y=map_y)

        # Run and return.
        return workflow.run()
''', '''        workflow = MaswWorkflowRegistry.create_instance(selected_workflow, fnames=fnames,
                                                        settings=settings,
                                                        map_x=map_x, map_y=map_y)
        return workflow.run()
'''))
E("b-masw-settings-windows", "masw.py", ('''                    "noise": {
                        "begin": float(noise_begin),
                        "end": float(noise_end)
                    },
                    "signal": {
                        "begin": float(signal_begin),
                        "end": float(signal_end)
                    },
''', '''                    "noise": Masw._window(noise_begin, noise_end),
                    "signal": Masw._window(signal_begin, signal_end),
'''), ('''    @staticmethod
    def create_settings_dict(''', '''    @staticmethod
    def _window(begin, end):
        return {"begin": float(begin), "end": float(end)}

    @staticmethod
    def create_settings_dict('''))
E("b-src-loop", "source.py", ('''        args = [getattr(other, attr) for attr in ["x", "y", "z"]]
        return cls(*args)
''', '''        position = {attr: getattr(other, attr) for attr in ("x", "y", "z")}
        return cls(**position)
'''))
E("b-src-eq-all", "source.py", ('''        for attr in ["x", "y", "z"]:
            if getattr(self, attr) != getattr(other, attr):
                return False
        return True
''', '''        return self.x == other.x and self.y == other.y and self.z == other.z
'''))
E("b-inv-transpose", "inversion.py", ('''    a = np.matmul(covp0p0, dgdp.T)
    b = np.linalg.inv(covd0d0 + np.matmul(np.matmul(dgdp, covp0p0), dgdp.T))
    c = d0 - dm + np.matmul(dgdp, (pm-p0))
    return p0 + np.matmul(np.matmul(a, b), c)
''', '''    residual = d0 - dm + dgdp @ (pm - p0)
    predicted = covd0d0 + dgdp @ covp0p0 @ dgdp.T
    gain = covp0p0 @ dgdp.T @ np.linalg.inv(predicted)
    return p0 + gain @ residual
'''))
E("b-meta-comp", "meta.py", ('''    if version not in SUPPORTED_GEOPSY_VERSIONS:
        msg = f"geopsy version {version} is not supported; "
''', '''    supported = version in SUPPORTED_GEOPSY_VERSIONS
    if not supported:
        msg = f"geopsy version {version} is not supported; "
'''))
E("b-rx-invert", "regex.py", ('''    if wavetype in ("rayleigh", "love", "vertical", "radial", "transverse"):
        return wavetype.capitalize()
    else:
        raise ValueError(f"wavetype={wavetype}, not recognized.")
''', '''    allowed = ["rayleigh", "love", "vertical", "radial", "transverse"]
    if wavetype not in allowed:
        raise ValueError(f"wavetype={wavetype}, not recognized.")
    return wavetype.capitalize()
'''))
E("b-rx-concat", "regex.py", ('''    pattern = rf"(?<!\\S)({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1"
    return re.compile(pattern)
''', '''    start = r"(?<!\\S)"
    pattern = start + "(" + time + ") (" + frequency + ") " + wavetype
    for column in (NUMBER, NUMBER, NUMBER, NUMBER + "|-?inf|nan", NUMBER):
        pattern += " (" + column + ")"
    pattern += " 1"
    return re.compile(pattern)
'''))
E("b-rx-all-prefix", "regex.py", ('''    if wavetype is None:
        pattern = rf"(?<!\\S){time} .* 1"
    else:
        wavetype = validate_wavetypes(wavetype)
        pattern = rf"(?<!\\S){time} .* {wavetype} .* 1"
    return re.compile(pattern)
''', '''    middle = ".*" if wavetype is None else f".* {validate_wavetypes(wavetype)} .*"
    return re.compile(rf"(?<!\\S){time} {middle} 1")
'''))
E("b-pk-init-attrs", "peaks.py", ('''        self.attrs = ["frequency", "velocity"] + list(kwargs.keys())
''', '''        self.attrs = ["frequency", "velocity", *kwargs]
'''))
E("b-pk-valid", "peaks.py", ('''        self._valid = ~np.isnan(self._velocity)
''', '''        self._valid = np.logical_not(np.isnan(self._velocity))
'''))
E("b-pk-valid2", "peaks.py", ('''        self._valid = ~np.isnan(self._velocity)
''', '''        missing = np.isnan(self._velocity)
        self._valid = missing == False  # noqa: E712
'''))
E("b-pk-shown-helper", "peaks.py", ('''    @property
    def frequency(self):
        return self._frequency[self._valid]
    @property
    def velocity(self):
        return self._velocity[self._valid]
    @property
    def azimuth(self):
        return self._azimuth[self._valid]
    @property
    def ellipticity(self):
        return self._ellipticity[self._valid]
    @property
    def noise(self):
        return self._noise[self._valid]
    @property
    def power(self):
        return self._power[self._valid]
''', '''    def _shown(self, name):
        """Valid entries of a stored quantity."""
        return getattr(self, "_" + name)[self._valid]
    @property
    def frequency(self):
        return self._shown("frequency")
    @property
    def velocity(self):
        return self._shown("velocity")
    @property
    def azimuth(self):
        return self._shown("azimuth")
    @property
    def ellipticity(self):
        return self._shown("ellipticity")
    @property
    def noise(self):
        return self._shown("noise")
    @property
    def power(self):
        return self._shown("power")
'''))
E("b-pk-calc-masked", "peaks.py", ('''        return self.velocity/self.frequency
''', '''        return self._wavelength[self._valid]
'''), ('''        return 2*np.pi*self.frequency/self.velocity
''', '''        return self._wavenumber[self._valid]
'''))
E("b-pk-wavenumber", "peaks.py", ('''        return 2*np.pi*self.frequency/self.velocity
''', '''        return 2*np.pi/self.wavelength
'''))
E("b-pk-limits-or", "peaks.py", ('''        bool_array = np.zeros_like(_attr, dtype=bool)
        if _min is None and _max is None:
            msg = "`reject_outside` called, but limits were both `None`, "
            msg += "therefore no values were rejected."
            warnings.warn(msg)
        elif _min is None:
            np.greater(_attr, _max, out=bool_array, where=self._valid)
        elif _max is None:
            np.less(_attr, _min, out=bool_array, where=self._valid)
        else:
            np.greater(_attr, _max, out=bool_array, where=self._valid)
            np.less(_attr, _min, out=bool_array,
                    where=np.logical_and(self._valid, ~bool_array))
        self._reject(bool_array)
''', '''        if _min is None and _max is None:
            msg = "`reject_outside` called, but limits were both `None`, "
            msg += "therefore no values were rejected."
            warnings.warn(msg)
            return
        bool_array = np.zeros_like(_attr, dtype=bool)
        if _max is not None:
            bool_array |= _attr > _max
        if _min is not None:
            bool_array |= _attr < _min
        self._reject(np.logical_and(bool_array, self._valid))
'''))
E("b-pk-limits-inf", "peaks.py", ('''        elif _min is None:
            np.greater(_attr, _max, out=bool_array, where=self._valid)
        elif _max is None:
            np.less(_attr, _min, out=bool_array, where=self._valid)
        else:
            np.greater(_attr, _max, out=bool_array, where=self._valid)
            np.less(_attr, _min, out=bool_array,
                    where=np.logical_and(self._valid, ~bool_array))
        self._reject(bool_array)
''', '''        elif _min is None:
            bool_array = self._valid & (_attr > _max)
        elif _max is None:
            bool_array = self._valid & (_attr < _min)
        else:
            bool_array = self._valid & ((_attr > _max) | (_attr < _min))
        self._reject(bool_array)
'''))
E("b-pk-box-and", "peaks.py", ('''        bool_array = np.zeros_like(xs, dtype=bool)
        np.greater(xs, x_min, out=bool_array, where=self._valid)
        np.less(xs, x_max, out=bool_array, where=bool_array)
        np.greater(ys, y_min, out=bool_array, where=bool_array)
        np.less(ys, y_max, out=bool_array, where=bool_array)
        return bool_array
''', '''        x_inside = np.logical_and(xs > x_min, xs < x_max)
        y_inside = np.logical_and(ys > y_min, ys < y_max)
        return np.logical_and.reduce([self._valid, x_inside, y_inside])
'''))
E("b-pk-box-sorted", "peaks.py", ('''        x_min, x_max = min(xlims), max(xlims)
''', '''        x_min, x_max = sorted(xlims)
'''), ('''        y_min, y_max = min(ylims), max(ylims)
''', '''        y_min, y_max = sorted(ylims)
'''))
E("b-pk-box-inner", "peaks.py", ('''        xs = getattr(self, f"_{xtype}")
        x_min, x_max = min(xlims), max(xlims)
        ys = getattr(self, f"_{ytype}")
        y_min, y_max = min(ylims), max(ylims)
        bool_array = np.zeros_like(xs, dtype=bool)
        np.greater(xs, x_min, out=bool_array, where=self._valid)
        np.less(xs, x_max, out=bool_array, where=bool_array)
        np.greater(ys, y_min, out=bool_array, where=bool_array)
        np.less(ys, y_max, out=bool_array, where=bool_array)
        return bool_array
''', '''        inside = self._valid.copy()
        for quantity, limits in ((xtype, xlims), (ytype, ylims)):
            values = getattr(self, f"_{quantity}")
            inside &= (values > min(limits)) & (values < max(limits))
        return inside
'''))
E("b-pk-reject-and", "peaks.py", ('''        self._valid[bool_array] = False
''', '''        self._valid = self._valid & ~bool_array
'''))
E("b-pk-reject-and2", "peaks.py", ('''        self._valid[bool_array] = False
''', '''        self._valid = np.logical_and(self._valid, np.logical_not(bool_array))
'''))
E("b-pk-reject-where", "peaks.py", ('''        self._valid[bool_array] = False
''', '''        np.putmask(self._valid, bool_array, False)
'''))
E("b-pk-simplify-merge", "peaks.py", ('''        if getattr(self, f"_{attr}").ndim == 1:
            return getattr(self, f"{attr}")
        # If 2D and has power, return values based on maximum.
        elif hasattr(self, "_power"):
            attr = getattr(self, f"_{attr}")
            decide = self._power
        # If 2D and missing power, return first available value.
        else:
            attr = getattr(self, f"_{attr}")
            decide = self._frequency
''', '''        stored = getattr(self, f"_{attr}")
        if stored.ndim == 1:
            return getattr(self, attr)
        # If 2D: decide on power or (missing power) the first available value.
        decide = self._power if hasattr(self, "_power") else self._frequency
        attr = stored
'''))
E("b-pk-simplify-guard", "peaks.py", ('''                if not valid:
                    continue
                if rowval > mval:
                    mindex = rindex
                    mval = rowval
''', '''                if valid and rowval > mval:
                    mindex, mval = rindex, rowval
'''))
E("b-pk-simplify-range", "peaks.py", ('''        for cindex, (colvals, valids) in enumerate(zip(decide.T, self._valid.T)):
            mindex = 0
            mval = -np.inf
            for rindex, (rowval, valid) in enumerate(zip(colvals, valids)):
                if not valid:
                    continue
                if rowval > mval:
                    mindex = rindex
                    mval = rowval
''', '''        nrows, ncols = decide.shape
        for cindex in range(ncols):
            mindex = 0
            mval = -np.inf
            for rindex in range(nrows):
                if not self._valid[rindex, cindex]:
                    continue
                if decide[rindex, cindex] > mval:
                    mindex = rindex
                    mval = decide[rindex, cindex]
'''))
E("b-pk-tojson-comp", "peaks.py", ('''        data = {}
        for attr in self.attrs:
            data[attr] = getattr(self, f"_{attr}").tolist()
        data["valid"] = self._valid.tolist()
''', '''        data = {attr: getattr(self, f"_{attr}").tolist() for attr in self.attrs}
        data.update(valid=self._valid.tolist())
'''))
E("b-pk-tojson-flat", "peaks.py", ('''        if append:
            with open(fname, "r") as f:
                data_to_update = json.load(f)
            if self.identifier in data_to_update.keys():
                msg = "Data already exists in file with identifier "
                msg += f"{self.identifier}, file left unmodified."
                raise KeyError(msg)
            else:
                data_to_update[self.identifier] = data
                with open(fname, "w") as f:
                    json.dump(data_to_update, f)
        else:
            data = {self.identifier: data}
            with open(fname, "w") as f:
                json.dump(data, f)
''', '''        contents = {}
        if append:
            with open(fname, "r") as f:
                contents = json.load(f)
            if self.identifier in contents:
                msg = "Data already exists in file with identifier "
                msg += f"{self.identifier}, file left unmodified."
                raise KeyError(msg)
        contents[self.identifier] = data
        with open(fname, "w") as f:
            json.dump(contents, f)
'''))
E("b-pk-tojson-dumps", "peaks.py", ('''                data_to_update[self.identifier] = data
                with open(fname, "w") as f:
                    json.dump(data_to_update, f)
''', '''                updated = {**data_to_update, self.identifier: data}
                with open(fname, mode="w") as f:
                    f.write(json.dumps(updated))
'''))
E("b-pk-fromjson-next", "peaks.py", ('''        key_list = list(data.keys())
        if len(key_list) > 1:
''', '''        identifier = next(iter(data))
        if len(data) > 1:
'''), ('''        return cls.from_dict(data[key_list[0]], identifier=key_list[0])
''', '''        return cls.from_dict(data[identifier], identifier=identifier)
'''))
E("b-pk-fromdict-filter", "peaks.py", ('''        data_dict = dict(data_dict)
        valid = data_dict.pop("valid", None)
        obj = cls(identifier=identifier, **data_dict)
        if valid is not None:
            obj._valid = np.array(valid, dtype=bool)
        return obj
''', '''        quantities = {key: value for key, value in data_dict.items() if key != "valid"}
        obj = cls(identifier=identifier, **quantities)
        if data_dict.get("valid") is not None:
            obj._valid = np.array(data_dict["valid"], dtype=bool)
        return obj
'''))
E("b-pk-max-version", "peaks.py", ('''        regex = get_geopsy_version()
        major, minor, micro = regex.search(peak_data).groups()
        version = f"{major}.{minor}.{micro}"
        check_geopsy_version(version)
''', '''        version = ".".join(get_geopsy_version().search(peak_data).groups())
        check_geopsy_version(version)
'''))
E("b-pk-parse-group", "peaks.py", ('''                _, _frq, _slo, _azi, _ell, _noi, _pwr = match.groups()
                frqs[row, col] = float(_frq)
                vels[row, col] = 1/float(_slo)
                azis[row, col] = float(_azi)
                ells[row, col] = float(_ell)
                nois[row, col] = float(_noi)
                pwrs[row, col] = float(_pwr)
''', '''                frq, slo, azi, ell, noi, pwr = map(float, match.groups()[1:])
                frqs[row, col] = frq
                vels[row, col] = 1/slo
                azis[row, col] = azi
                ells[row, col] = ell
                nois[row, col] = noi
                pwrs[row, col] = pwr
'''))
E("b-pk-parse-clip", "peaks.py", ('''            nmaxima = max(1, nmaxima)
            nmaxima = min(100, nmaxima)
        frqs''', '''            nmaxima = min(max(nmaxima, 1), 100)
        frqs'''))
E("b-pk-parse-freqs", "peaks.py", ('''            for match in regex.finditer(peak_data):
                _, f, *_ = match.groups()
                if f in frequencies:
                    continue
                else:
                    frequencies.append(f)
''', '''            for match in regex.finditer(peak_data):
                f = match.group(2)
                if f not in frequencies:
                    frequencies.append(f)
'''))
E("b-pk-parse-full", "peaks.py", ('''        frqs = np.full((nmaxima, nfrequencies), fill_value=np.nan, dtype=float)
        vels = np.full_like(frqs, fill_value=np.nan, dtype=float)
        azis = np.full_like(frqs, fill_value=np.nan, dtype=float)
        ells = np.full_like(frqs, fill_value=np.nan, dtype=float)
        nois = np.full_like(frqs, fill_value=np.nan, dtype=float)
        pwrs = np.full_like(frqs, fill_value=np.nan, dtype=float)
''', '''        shape = (nmaxima, nfrequencies)
        frqs, vels, azis, ells, nois, pwrs = (np.full(shape, np.nan) for _ in range(6))
'''))
E("b-pk-parse-process", "peaks.py", ('''        if process_type.lower() == "rtbf" and wavetype_from_file == "Vertical":
            process_type = "capon"
        else:
            process_type = process_type.lower()
''', '''        process_type = process_type.lower()
        if wavetype_from_file == "Vertical" and process_type == "rtbf":
            process_type = "capon"
'''))
E("b-pk-eq-zip", "peaks.py", ('''        # Check non-iterable attributes
        for key in ["identifier"]:
            try:
                if getattr(self, key) != getattr(other, key):
                    return False
            except AttributeError:
                return False
''', '''        if self.identifier != other.identifier:
            return False
'''))
E("b-pk-eq-helper", "peaks.py", ('''        # Check iterable attributes
        for attr in self.attrs:
            try:
                myattr = getattr(self, attr)
                urattr = getattr(other, attr)
            except AttributeError:
                return False
            else:
                try:
                    if np.shape(myattr) != np.shape(urattr):
                        return False
                    if not np.allclose(myattr, urattr, equal_nan=True):
                        return False
                except ValueError:
                    return False
        return True
''', '''        # Check iterable attributes
        return all(self._same(other, attr) for attr in self.attrs)
    def _same(self, other, attr):
        try:
            myattr = getattr(self, attr)
            urattr = getattr(other, attr)
        except AttributeError:
            return False
        try:
            return np.shape(myattr) == np.shape(urattr) and np.allclose(myattr, urattr, equal_nan=True)
        except ValueError:
            return False
'''))
E("b-ps-init-append", "peakssuite.py", ('''        self._check_input(peaks)
        self.peaks = [peaks]
        self.ids = [peaks.identifier]
''', '''        self.peaks, self.ids = [], []
        self.append(peaks)
'''))
E("b-ps-append-helper", "peakssuite.py", ('''        if peaks.identifier in self.ids:
            msg = "There already exists a member object with an "
            msg += f"identifier = {peaks.identifier}."
            raise KeyError(msg)
        self.peaks.append(peaks)
        self.ids.append(peaks.identifier)
''', '''        identifier = peaks.identifier
        if any(identifier == taken for taken in self.ids):
            raise KeyError(f"There already exists a member object with an identifier = {identifier}.")
        self.peaks += [peaks]
        self.ids += [identifier]
'''))
E("b-ps-append-order", "peakssuite.py", ('''        self.peaks.append(peaks)
        self.ids.append(peaks.identifier)
''', '''        self.ids.append(peaks.identifier)
        self.peaks.append(peaks)
'''))
E("b-ps-reject-for", "peakssuite.py", ('''        for peak in self.peaks:
            peak.reject_limits_outside(attribute, limits)
''', '''        for index in range(len(self)):
            self.peaks[index].reject_limits_outside(attr=attribute, limits=limits)
'''), ('''        for peak in self.peaks:
            peak.reject_box_inside(xtype, xlims, ytype, ylims)
''', '''        for peak in self:
            peak._reject(peak._reject_box_inside_bool_array(xtype, xlims, ytype, ylims))
'''))
E("b-ps-limits-lambda", "peakssuite.py", ('''            if attribute == "wavelength":
                if ytype == "velocity":
                    y1, y2 = [xs*limit for limit in limits]
                elif ytype == "wavenumber":
                    y1, y2 = [np.ones_like(ys)*2*np.pi /
                              limit for limit in limits]
                elif ytype == "slowness":
                    y1, y2 = [1/(xs*limit) for limit in limits]
                else:
                    raise NotImplementedError
            elif attribute == "wavenumber":
                if ytype == "velocity":
                    y1, y2 = [xs*np.pi*2/limit for limit in limits]
                elif ytype == "wavenumber":
                    y1, y2 = [np.ones_like(ys)*limit for limit in limits]
                elif ytype == "slowness":
                    y1, y2 = [limit/(2*np.pi*xs) for limit in limits]
                else:
                    raise NotImplementedError
            else:
                raise NotImplementedError
''', '''            if attribute == "wavelength":
                wavelengths = list(limits)
            elif attribute == "wavenumber":
                wavelengths = [2*np.pi/limit for limit in limits]
            else:
                raise NotImplementedError
            if ytype == "velocity":
                y1, y2 = [xs*wavelength for wavelength in wavelengths]
            elif ytype == "wavenumber":
                y1, y2 = [np.ones_like(ys)*2*np.pi/wavelength for wavelength in wavelengths]
            elif ytype == "slowness":
                y1, y2 = [1/(xs*wavelength) for wavelength in wavelengths]
            else:
                raise NotImplementedError
'''))
E("b-ps-limits-in", "peakssuite.py", ('''            if attribute == "wavelength":
                if ytype == "velocity":
                    x1, x2 = [np.ones_like(ys)*limit for limit in limits]
                elif ytype == "slowness":
                    x1, x2 = [np.ones_like(ys)*limit for limit in limits]
                else:
                    raise NotImplementedError
            elif attribute == "wavenumber":
                if ytype == "velocity":
                    x1, x2 = [np.ones_like(ys)*2*np.pi /
                              limit for limit in limits]
                elif ytype == "slowness":
                    x1, x2 = [np.ones_like(ys)*2*np.pi /
                              limit for limit in limits]
                else:
                    raise NotImplementedError
            else:
                raise NotImplementedError
''', '''            if ytype not in ("velocity", "slowness"):
                raise NotImplementedError
            if attribute == "wavelength":
                x1, x2 = (np.full_like(ys, limit) for limit in limits)
            elif attribute == "wavenumber":
                x1, x2 = (np.full_like(ys, 2*np.pi/limit) for limit in limits)
            else:
                raise NotImplementedError
'''))
E("b-ps-stat-sub", "peakssuite.py", ('''            for cid, values in enumerate(data_matrix.T):
                mean_value = np.nanmean(values)
                rbools = np.isnan(values)
                data_matrix[rbools, cid] = mean_value
''', '''            data_matrix = np.where(np.isnan(data_matrix), mean, data_matrix)
'''))
E("b-ps-stat-guard", "peakssuite.py", ('''        npeaks = len(self.peaks)
        if npeaks < 3:
            msg = "Cannot calculate statistics on fewer than 3 `Peaks`."
            raise ValueError(msg)
''', '''        if len(self) <= 2:
            raise ValueError("Cannot calculate statistics on fewer than 3 `Peaks`.")
'''))
E("b-ps-toarray-list", "peakssuite.py", ('''            try:
                interpfxn = interp1d(x, y,
                                     copy=True, bounds_error=False,
                                     fill_value=np.nan)
            except ValueError:
                array[row, :] = np.nan
            else:
                array[row, :] = interpfxn(xx)
''', '''            try:
                values = interp1d(x, y, copy=True, bounds_error=False, fill_value=np.nan)(xx)
            except ValueError:
                values = np.nan
            array[row] = values
'''))
E("b-ps-toarray-any", "peakssuite.py", ('''            if np.sum(np.isnan(x)) + np.sum(np.isnan(y)):
''', '''            if np.isnan(x).any() or np.isnan(y).any():
'''))
E("b-ps-drop-comp", "peakssuite.py", ('''        drop_indices = []
        for index, row in enumerate(data_matrix):
            n_nan = np.sum(np.isnan(row))
            n_tot = len(row)
            n_num = n_tot - n_nan
            p_num = n_num/n_tot
            if n_num < drop_if_fewer_count or p_num < drop_if_fewer_percent:
                drop_indices.append(index)
        return np.array(drop_indices, dtype=int)
''', '''        n_num = np.sum(~np.isnan(data_matrix), axis=1)
        p_num = n_num/data_matrix.shape[1]
        drop = (n_num < drop_if_fewer_count) | (p_num < drop_if_fewer_percent)
        return np.flatnonzero(drop)
'''))
E("b-ps-drop-helper", "peakssuite.py", ('''        r_nans = np.sum(np.isnan(data_matrix_1))
        r_nums = data_matrix_1.size - r_nans
        utility_option_1 = (i_nans - r_nans) / (i_nums - r_nums + 1)
''', '''        utility_option_1 = utility(data_matrix_1)
'''), ('''        r_nans = np.sum(np.isnan(data_matrix_2))
        r_nums = data_matrix_2.size - r_nans
        utility_option_2 = (i_nans - r_nans) / (i_nums - r_nums + 1)
''', '''        utility_option_2 = utility(data_matrix_2)
'''), ('''        i_nums = data_matrix.size - i_nans
''', '''        i_nums = data_matrix.size - i_nans

        def utility(reduced):
            nans = np.count_nonzero(np.isnan(reduced))
            nums = reduced.size - nans
            return (i_nans - nans) / (i_nums - nums + 1)

'''))
E("b-ps-tojson-enum", "peakssuite.py", ('''        append = False
        for peak in self.peaks:
            peak.to_json(fname, append=append)
            append = True
''', '''        for index, peak in enumerate(self.peaks):
            peak.to_json(fname, append=index > 0)
'''))
E("b-ps-tojson-split", "peakssuite.py", ('''        append = False
        for peak in self.peaks:
            peak.to_json(fname, append=append)
            append = True
''', '''        first, *others = self.peaks
        first.to_json(fname)
        for peak in others:
            peak.to_json(fname, append=True)
'''))
E("b-ps-fromdict-comp", "peakssuite.py", ('''        if isinstance(dicts, dict):
            dicts = [dicts]
        peaks = []
        for _dict in dicts:
            for identifier, data in _dict.items():
                peaks.append(Peaks.from_dict(data, identifier=identifier))
        return cls.from_peaks(peaks)
''', '''        dicts = [dicts] if isinstance(dicts, dict) else dicts
        return cls.from_peaks([Peaks.from_dict(data, identifier=identifier)
                               for _dict in dicts for identifier, data in _dict.items()])
'''))
E("b-ps-fromjson-comp", "peakssuite.py", ('''        dicts = []
        for fname in fnames:
            with open(fname, "r") as f:
                dicts.append(json.load(f))
        return cls.from_dict(dicts)
''', '''        def load(fname):
            with open(fname, "r") as f:
                return json.load(f)
        return cls.from_dict([load(fname) for fname in fnames])
'''))
E("b-ps-frompeaks-iter", "peakssuite.py", ('''        obj = cls(peaks[0])
        if len(peaks) >= 1:
            for peak in peaks[1:]:
                obj.append(peak)
        return obj
''', '''        obj = cls(peaks[0])
        for peak in peaks[1:]:
            obj.append(peak)
        return obj
'''))
E("b-ps-fromsuite-sum", "peakssuite.py", ('''        obj = cls.from_peaks(peakssuites[0].peaks)
        for peaksuite in peakssuites[1:]:
            for peak in peaksuite:
                obj.append(peak)
        return obj
''', '''        return cls.from_peaks([peak for suite in peakssuites for peak in suite.peaks])
'''))
E("b-ps-eq-all", "peakssuite.py", ('''        if len(self) != len(other):
            return False
        for mypeaks, urpeaks in zip(self.peaks, other.peaks):
            if mypeaks != urpeaks:
                return False
        return True
''', '''        return len(self) == len(other) and all(a == b for a, b in zip(self.peaks, other.peaks))
'''))
E("b-ps-max-unique", "peakssuite.py", ('''            found_times = []
            for found in regex.finditer(peak_data):
                start_time = found.groups()[0]
                if start_time in found_times:
                    continue
                found_times.append(start_time)
                peak = Peaks._parse_peaks(peak_data,
                                          wavetype=file_wavetype,
                                          start_time=start_time,
                                          frequencies=frequencies,
                                          nmaxima=nmaxima)
                peaks.append(peak)
''', '''            start_times = []
            for found in regex.finditer(peak_data):
                start_time = found.groups()[0]
                if start_time not in start_times:
                    start_times.append(start_time)
            for start_time in start_times:
                peaks.append(Peaks._parse_peaks(peak_data, wavetype=file_wavetype, start_time=start_time,
                                                frequencies=frequencies, nmaxima=nmaxima))
'''))
E("b-ps-max-helper", "peakssuite.py", ('''            regex = get_wavetype()
            wavetype_from_file = regex.search(peak_data).groups()[0]
            file_wavetype = wavetype
            if wavetype == "rayleigh" and wavetype_from_file == "Vertical":
                file_wavetype = "vertical"
            regex = get_nmaxima()
''', '''            recorded = get_wavetype().search(peak_data).group(1)
            vertical = wavetype == "rayleigh" and recorded == "Vertical"
            file_wavetype = "vertical" if vertical else wavetype
            regex = get_nmaxima()
'''))
# plots, picks, correlation, refusals
E("c-wf-helper-axes", "array1d.py", ('''        ax_was_none = False
        if ax is None:
            ax_was_none = True
            if time_ax == "x":
                size = (6, 4)
            elif time_ax == "y":
                size = (4, 6)
            else:
                msg = f"time_ax = {time_ax} not recognized, use 'x' or 'y'."
                raise ValueError(msg)
            fig, ax = plt.subplots(figsize=size)
''', '''        ax_was_none = ax is None
        if ax_was_none:
            sizes = {"x": (6, 4), "y": (4, 6)}
            if time_ax not in sizes:
                msg = f"time_ax = {time_ax} not recognized, use 'x' or 'y'."
                raise ValueError(msg)
            fig, ax = plt.subplots(figsize=sizes[time_ax])
'''))
E("c-wf-draw-helper", "array1d.py", ('''        for i, position in enumerate(positions):
            traces[i, :] *= amplitude_scale
            traces[i, :] += position
''', '''        traces = [trace*amplitude_scale + position for trace, position in zip(traces, positions)]
'''), ('''        if time_ax == "x":
            for trace in traces:
                ax.plot(time, trace, **kwargs)
                kwargs["label"] = None
        else:
            for trace in traces:
                ax.plot(trace, time, **kwargs)
                kwargs["label"] = None
''', '''        for trace in traces:
            pair = (time, trace) if time_ax == "x" else (trace, time)
            ax.plot(*pair, **kwargs)
            kwargs["label"] = None
'''))
E("c-wf-broadcast", "array1d.py", ('''        for i, position in enumerate(positions):
            traces[i, :] *= amplitude_scale
            traces[i, :] += position
''', '''        traces = traces*amplitude_scale + np.array(positions)[:, np.newaxis]
'''))
E("c-schem-merge", "array1d.py", ('''        if sensor_kwargs is None:
            sensor_kwargs = {}
        sensor_kwargs = {**default_sensor_kwargs, **sensor_kwargs}
        ax.plot(xs, ys, **sensor_kwargs)
''', '''        default_sensor_kwargs.update(sensor_kwargs or {})
        ax.plot(xs, ys, **default_sensor_kwargs)
'''))
E("c-schem-zip", "array1d.py", ('''        xs = [sensor.x for sensor in self.sensors]
        ys = [sensor.y for sensor in self.sensors]
        default_sensor_kwargs''', '''        xs, ys = [], []
        for sensor in self.sensors:
            xs.append(sensor.x)
            ys.append(sensor.y)
        default_sensor_kwargs'''))
E("c-pick-argmax", "array1d.py", ('''            pindices = np.argwhere(abs(trace-np.mean(trace[:10])) > threshold)
            index = int(pindices.flatten()[0])
            times.append(time[index])
''', '''            baseline = np.mean(trace[:10])
            departs = np.abs(trace - baseline) > threshold
            index = int(np.argwhere(departs).flatten()[0])
            times.append(time[index])
'''))
E("c-pick-comp", "array1d.py", ('''        times = []
        for trace in traces:
            pindices = np.argwhere(abs(trace-np.mean(trace[:10])) > threshold)
            index = int(pindices.flatten()[0])
            times.append(time[index])

        return (self.position(), times)
''', '''        def first(trace):
            pindices = np.argwhere(abs(trace-np.mean(trace[:10])) > threshold)
            return int(pindices.flatten()[0])

        return (self.position(), [time[first(trace)] for trace in traces])
'''))
E("c-pick-early", "array1d.py", ('''        if algorithm == "threshold":
            picks = self._pick_on_threshold(**algorithm_kwargs)
        else:
            raise NotImplementedError
        return picks
''', '''        if algorithm != "threshold":
            raise NotImplementedError
        return self._pick_on_threshold(**algorithm_kwargs)
'''))
E("c-manual-ternary", "array1d.py", ('''        pairs = self._ginput_session(ax, npts=np.inf)

        if ax.get_xlabel() == "Distance (m)":
            distance, time = pairs
        else:
            time, distance = pairs

        return (distance, time)
''', '''        xs, ys = self._ginput_session(ax, npts=np.inf)
        return (xs, ys) if ax.get_xlabel() == "Distance (m)" else (ys, xs)
'''))
E("c-imute-helper", "array1d.py", ('''        # Define the start of the signal.
        if (mute_location == "before") or (mute_location == "both"):
            xs, ys = self._ginput_session(ax, npts=2,
                                          initial_adjustment=False,
                                          ask_to_continue=False)
            ax.plot(xs, ys, color="r", linewidth=0.5)
            signal_start = parse(xs, ys)
        else:
            signal_start = None

        # Define the end of the signal.
        if (mute_location == "after") or (mute_location == "both"):
            xs, ys = self._ginput_session(ax, npts=2,
                                          initial_adjustment=False,
                                          ask_to_continue=False)
            ax.plot(xs, ys, color="r", linewidth=0.5)
            signal_end = parse(xs, ys)
        else:
            signal_end = None
''', '''        def pick():
            xs, ys = self._ginput_session(ax, npts=2,
                                          initial_adjustment=False,
                                          ask_to_continue=False)
            ax.plot(xs, ys, color="r", linewidth=0.5)
            return parse(xs, ys)

        signal_start = pick() if mute_location in ("before", "both") else None
        signal_end = pick() if mute_location in ("after", "both") else None
'''))
E("c-imute-parse", "array1d.py", ('''            if time_ax == "y":
                return ((xs[0], ys[0]), (xs[1], ys[1]))
            else:
                return ((ys[0], xs[0]), (ys[1], xs[1]))
''', '''            distances, times = (xs, ys) if time_ax == "y" else (ys, xs)
            return ((distances[0], times[0]), (distances[1], times[1]))
'''))
E("c-imute-setdefault", "array1d.py", ('''        default_waterfall_kwargs = dict(time_ax="y")
        if waterfall_kwargs is None:
            waterfall_kwargs = {}
        waterfall_kwargs = {**default_waterfall_kwargs, **waterfall_kwargs}
''', '''        waterfall_kwargs = dict(waterfall_kwargs or {})
        waterfall_kwargs.setdefault("time_ax", "y")
'''))
E("c-tofile-guard", "array1d.py", ('''        if ftype != "su":
            raise ValueError(f"ftype = {ftype} not recognized.")
''', '''        if ftype not in ("su",):
            raise ValueError(f"ftype = {ftype} not recognized.")
'''))
E("c-offsets-locals", "array1d.py", ('''        sensors = []
        for offset, sensor in zip(self.offsets, self.sensors):
            if (offset > min_offset) and (offset < max_offset):
                sensors.append(sensor)

        if len(sensors) == 0:
''', '''        sensors = [sensor for offset, sensor in zip(self.offsets, self.sensors)
                   if min_offset < offset < max_offset]

        if not sensors:
'''))
E("c-xc-locals", "array1d.py", ('''        tmin = min_offset/vmax
        # TODO (jpv): Revisit minimum time add fudge factor for now.
        idx_dx_tmin = int((tmin-0.5)/self.source.dt)

        tmax = max_offset/vmin
        idx_dx_tmax = int(tmax/self.source.dt)
''', '''        # TODO (jpv): Revisit minimum time add fudge factor for now.
        dt = self.source.dt
        idx_dx_tmin = int((min_offset/vmax-0.5)/dt)
        idx_dx_tmax = int(max_offset/vmin/dt)
'''))
E("c-xc-comp", "array1d.py", ('''        sensors = []
        for sensor in self.sensors:
            corr = signal.correlate(sensor.amplitude, src_amp)
            corr = corr[idx_min:idx_max]
            sensor = Sensor1C(corr, dt=sensor.dt,
                              x=sensor.x, y=sensor.y, z=sensor.z,
                              nstacks=sensor.nstacks, delay=0)
            sensors.append(sensor)

        self.sensors = sensors
''', '''        def correlated(sensor):
            corr = signal.correlate(sensor.amplitude, src_amp)[idx_min:idx_max]
            return Sensor1C(corr, sensor.dt, sensor.x, sensor.y, sensor.z,
                            nstacks=sensor.nstacks)

        self.sensors = [correlated(sensor) for sensor in self.sensors]
'''))
E("c-src-mean", "array1d.py", ('''        trace = obspy.read(str(fnames_src[0]))[src_channel]
        dt = trace.meta.delta
        amp = np.array(trace.data, dtype=float)
        for fname in fnames_src[1:]:
            trace = obspy.read(str(fname))[src_channel]
            amp += trace.data
        amp /= len(fnames_src)
''', '''        trace = obspy.read(str(fnames_src[0]))[src_channel]
        dt = trace.meta.delta
        total = np.array(trace.data, dtype=float)
        for fname in fnames_src[1:]:
            total = total + obspy.read(str(fname))[src_channel].data
        amp = total/len(fnames_src)
'''))
E("c-ats-shift-pad", "activetimeseries.py", ('''        if shifts > 0:
            return (shifts, np.concatenate((np.zeros(shifts), b.amplitude[:-shifts])))
        elif shifts < 0:
            return (shifts, np.concatenate((b.amplitude[abs(shifts):], np.zeros(abs(shifts)))))
        else:
            return (shifts, np.array(b.amplitude))
''', '''        if shifts == 0:
            return (shifts, np.array(b.amplitude))
        padding = np.zeros(abs(shifts))
        if shifts > 0:
            shifted = np.concatenate((padding, b.amplitude[:-shifts]))
        else:
            shifted = np.concatenate((b.amplitude[-shifts:], padding))
        return (shifts, shifted)
'''))
E("c-ats-cross-locals", "activetimeseries.py", ('''        obj = cls.from_activetimeseries(a)
        b_copy = cls.from_activetimeseries(b)
        _, shifted_amplitude = cls.crosscorr_shift(
            a, b_copy, exclude=("nsamples", "nstacks"))
        b_copy._amp = np.expand_dims(shifted_amplitude, axis=0)
        obj.stack_append(b_copy)
        return obj
''', '''        stacked, shifted = cls.from_activetimeseries(a), cls.from_activetimeseries(b)
        amplitude = cls.crosscorr_shift(a, b, exclude=("nsamples", "nstacks"))[1]
        shifted._amp = np.expand_dims(amplitude, axis=0)
        stacked.stack_append(shifted)
        return stacked
'''))
E("c-ats-corr-or", "activetimeseries.py", ('''        if correlate_kwargs is None:
            correlate_kwargs = {}

        return correlate(a.amplitude, b.amplitude, **correlate_kwargs)
''', '''        kwargs = {} if correlate_kwargs is None else correlate_kwargs
        return correlate(a.amplitude, b.amplitude, **kwargs)
'''))
E("c-img-kwargs", "wavefieldtransforms.py", ('''            peak_kwargs = {} if peak_kwargs is None else peak_kwargs
            peak_kwargs = {**default_kwargs, **peak_kwargs}
            ax.plot(self.frequencies, selected_peaks, **peak_kwargs)
''', '''            default_kwargs.update(peak_kwargs or {})
            ax.plot(self.frequencies, selected_peaks, **default_kwargs)
'''))
E("c-img-near", "wavefieldtransforms.py", ('''            wv = self.array.array_center_distance / nearfield
            vs = fs*wv
''', '''            vs = fs*self.array.array_center_distance/nearfield
'''))
E("c-img-axes", "wavefieldtransforms.py", ('''        if ax is None:
            ax_was_none = True
            fig, ax = plt.subplots(figsize=(4, 3), dpi=150)
        else:
            ax_was_none = False
            if fig is None:
                raise ValueError("Both `fig` and `ax` must be defined.")
''', '''        ax_was_none = ax is None
        if ax_was_none:
            fig, ax = plt.subplots(figsize=(4, 3), dpi=150)
        elif fig is None:
            raise ValueError("Both `fig` and `ax` must be defined.")
'''))
E("c-snrplot-invert", "wavefieldtransforms.py", ('''        # Allow for user customization of plot.
        if plot_kwargs is None:
            plot_kwargs = {}

        # Plot signal-to-noise ratio.
        ax.plot(self.snr_frequencies, self.snr, **plot_kwargs)
''', '''        # Plot signal-to-noise ratio.
        ax.plot(self.snr_frequencies, self.snr, **(plot_kwargs or {}))
'''))
E("c-norm-dispatch", "wavefieldtransforms.py", ('''        register = {"none": (np.abs,
                             lambda x: 1.),
                    "absolute-maximum": (lambda x: np.abs(x)/np.max(np.abs(x)),
                                         lambda x: np.max(np.abs(x))),
                    "frequency-maximum": (lambda x: np.abs(x)/np.max(np.abs(x), axis=0),
                                          lambda x: np.max(np.abs(x), axis=0))
                    }
        to_norm, to_abs = register[by]
''', '''        factors = {"none": lambda x: 1.,
                   "absolute-maximum": lambda x: np.max(np.abs(x)),
                   "frequency-maximum": lambda x: np.max(np.abs(x), axis=0)}
        to_abs = factors[by]

        def to_norm(x):
            return np.abs(x)/to_abs(x)
'''))
E("c-vector-refuse", "wavefieldtransforms.py", ('''        samplers = {"linear": np.linspace, "lin": np.linspace,
                    "log": np.geomspace, "logarithmic": np.geomspace}
        sampler = samplers[pspace]
        return sampler(pmin, pmax, pn)
''', '''        if pspace in ("linear", "lin"):
            return np.linspace(pmin, pmax, pn)
        if pspace in ("log", "logarithmic"):
            return np.geomspace(pmin, pmax, pn)
        raise KeyError(pspace)
'''))
E("c-find-invert", "wavefieldtransforms.py", ('''        if by == "frequency-maximum":
            return self.velocities[np.argmax(np.abs(self.power), axis=0)]
        else:
            msg = f"find_peak_power by {by} not recognized, see docs for options."
            raise NotImplementedError(msg)
''', '''        if by != "frequency-maximum":
            msg = f"find_peak_power by {by} not recognized, see docs for options."
            raise NotImplementedError(msg)
        ids = np.argmax(np.abs(self.power), axis=0)
        return self.velocities[ids]
'''))
E("c-pk-plot-locals", "peaks.py", ('''            ax.plot(getattr(self, f"_{xtype}")[mask],
                    getattr(self, f"_{ytype}")[mask],
                    **plot_kwargs)
''', '''            xs = getattr(self, f"_{xtype}")
            ys = getattr(self, f"_{ytype}")
            ax.plot(xs[mask], ys[mask], **plot_kwargs)
'''))
E("c-pk-plot-defaults", "peaks.py", ('''        plot_kwargs = {} if plot_kwargs is None else plot_kwargs
        plot_kwargs = {**default_plot_kwargs, **plot_kwargs}

        # Handle presense or absence of mask.
        mask = self._valid if mask is None else mask
''', '''        plot_kwargs = {**default_plot_kwargs, **(plot_kwargs or {})}

        # Handle presense or absence of mask.
        if mask is None:
            mask = self._valid
'''))
E("c-ps-plot-index", "peakssuite.py", ('''        if len(self.peaks) > 1:
            for _peak, _plot_kwargs, _mask in zip(self.peaks[1:], plot_kwargs[1:], mask[1:]):
                label''', '''        if len(self.peaks) > 1:
            for index in range(1, len(self.peaks)):
                _peak, _plot_kwargs, _mask = self.peaks[index], plot_kwargs[index], mask[index]
                label'''))
E("c-ps-plot-noguard", "peakssuite.py", ('''        if len(self.peaks) > 1:
            for _peak, _plot_kwargs, _mask in zip(self.peaks[1:], plot_kwargs[1:], mask[1:]):
                label = _plot_kwargs.get("label", None)
                for _ax, _xtype, _ytype in zip(ax, xtype, ytype):

                    # Only label unique data sets.
                    _, labels = _ax.get_legend_handles_labels()
                    if label in labels:
                        _plot_kwargs["label"] = None

                    _peak._plot(xtype=_xtype, ytype=_ytype, ax=_ax,
                                plot_kwargs=_plot_kwargs, mask=_mask)
''', '''        for _peak, _plot_kwargs, _mask in zip(self.peaks[1:], plot_kwargs[1:], mask[1:]):
            label = _plot_kwargs.get("label", None)
            for _ax, _xtype, _ytype in zip(ax, xtype, ytype):

                # Only label unique data sets.
                labels = _ax.get_legend_handles_labels()[1]
                if label in labels:
                    _plot_kwargs["label"] = None

                _peak._plot(xtype=_xtype, ytype=_ytype, ax=_ax,
                            plot_kwargs=_plot_kwargs, mask=_mask)
'''))
E("c-ps-kwargs-comp", "peakssuite.py", ('''                if isinstance(value, str) or value is None:
                    new_dict[key] = value
                elif isinstance(value, (list, tuple)):
                    new_dict[key] = value[index]
                else:
                    msg = f"kwarg must be a `str` or `iterable` not {type(value)}."
                    raise NotImplementedError(msg)
''', '''                if value is None or isinstance(value, str):
                    new_dict[key] = value
                    continue
                if not isinstance(value, (list, tuple)):
                    msg = f"kwarg must be a `str` or `iterable` not {type(value)}."
                    raise NotImplementedError(msg)
                new_dict[key] = value[index]
'''))
E("c-ps-lim-table", "peakssuite.py", ('''            for limit_pair in limits:
                ax.plot(*limit_pair, **plot_kwargs)
                plot_kwargs["label"] = None
''', '''            for x, y in limits:
                ax.plot(x, y, **plot_kwargs)
                plot_kwargs["label"] = None
'''))
E("c-ps-lim-helper", "peakssuite.py", ('''                if ytype == "velocity":
                    y1, y2 = [xs*limit for limit in limits]
''', '''                if ytype == "velocity":
                    lower, upper = limits
                    y1, y2 = xs*lower, xs*upper
'''))
E("c-ps-append-else", "peakssuite.py", ('''        if peaks.identifier in self.ids:
            msg = "There already exists a member object with an "
            msg += f"identifier = {peaks.identifier}."
            raise KeyError(msg)
        self.peaks.append(peaks)
        self.ids.append(peaks.identifier)
''', '''        identifier = peaks.identifier
        if identifier not in self.ids:
            self.peaks.append(peaks)
            self.ids.append(identifier)
        else:
            msg = "There already exists a member object with an "
            msg += f"identifier = {identifier}."
            raise KeyError(msg)
'''))
E("c-ats-pad-else", "activetimeseries.py", ('''        # If new_samples == nsamples, do nothing.
        else:
            return

        self._amp = np.concatenate((self._amp, np.zeros((1, padding))), axis=1)
''', '''        # If new_samples == nsamples, do nothing.
        else:
            padding = 0

        if padding > 0:
            zeros = np.zeros((1, padding))
            self._amp = np.concatenate((self._amp, zeros), axis=1)
'''))
E("c-rx-validate-set", "regex.py", ('''    if wavetype in ("rayleigh", "love", "vertical", "radial", "transverse"):
        return wavetype.capitalize()
    else:
        raise ValueError(f"wavetype={wavetype}, not recognized.")
''', '''    known = {"rayleigh": "Rayleigh", "love": "Love", "vertical": "Vertical",
             "radial": "Radial", "transverse": "Transverse"}
    if wavetype not in known:
        raise ValueError(f"wavetype={wavetype}, not recognized.")
    return known[wavetype]
'''))
E("c-mw-xcorr-guard", "masw.py", ('''        if settings["workflow"] != "time-domain-xcorr":
            raise NotImplementedError

        selected_workflow = settings["workflow"]
''', '''        selected_workflow = settings["workflow"]
        if selected_workflow != "time-domain-xcorr":
            raise NotImplementedError
'''))

# ---------------------------------------------------------------- functions with few edits so far
E("d-ats-init", "activetimeseries.py", ('''        self._nstacks, self._delay = self._check_input(nstacks, delay)
        self._multiple = 1
''', '''        self._multiple = 1
        checked = self._check_input(nstacks, delay)
        self._nstacks = checked[0]
        self._delay = checked[1]
'''))
E("d-ats-seg2", "activetimeseries.py", ('''        return cls.from_trace(trace=trace,
                              nstacks=int(trace.stats.seg2.STACK),
                              delay=float(trace.stats.seg2.DELAY))
''', '''        header = trace.stats.seg2
        nstacks = int(header.STACK)
        delay = float(header.DELAY)
        return cls.from_trace(trace, nstacks, delay)
'''))
E("d-ats-trace", "activetimeseries.py", ('''        return cls(amplitude=trace.data, dt=trace.stats.delta,
                   nstacks=nstacks, delay=delay)
''', '''        stats = trace.stats
        kwargs = dict(nstacks=nstacks, delay=delay)
        return cls(trace.data, stats.delta, **kwargs)
'''))
E("d-ats-eq", "activetimeseries.py", ('''        if not self._is_similar(other):
            return False

        if not np.allclose(self.amplitude, other.amplitude):
            return False

        return True
''', '''        return self._is_similar(other) and bool(np.allclose(self.amplitude, other.amplitude))
'''))
E("d-ats-shift-abs", "activetimeseries.py", ('''        if shifts > 0:
            return (shifts, np.concatenate((np.zeros(shifts), b.amplitude[:-shifts])))
        elif shifts < 0:
            return (shifts, np.concatenate((b.amplitude[abs(shifts):], np.zeros(abs(shifts)))))
        else:
            return (shifts, np.array(b.amplitude))
''', '''        if shifts == 0:
            return (shifts, np.array(b.amplitude))

        zeros = np.zeros(abs(shifts))
        if shifts > 0:
            shifted = np.concatenate((zeros, b.amplitude[:-shifts]))
        else:
            shifted = np.concatenate((b.amplitude[-shifts:], zeros))
        return (shifts, shifted)
'''))
E("d-ats-cross-names", "activetimeseries.py", ('''        obj = cls.from_activetimeseries(a)
        b_copy = cls.from_activetimeseries(b)
        _, shifted_amplitude = cls.crosscorr_shift(
            a, b_copy, exclude=("nsamples", "nstacks"))
        b_copy._amp = np.expand_dims(shifted_amplitude, axis=0)
        obj.stack_append(b_copy)
        return obj
''', '''        stacked, aligned = (cls.from_activetimeseries(series) for series in (a, b))
        shifted = cls.crosscorr_shift(a, aligned,
                                      exclude=("nsamples", "nstacks"))[1]
        aligned._amp = shifted[np.newaxis, :]
        stacked.stack_append(aligned)
        return stacked
'''))
E("d-arr-init", "array1d.py", ('''        self.sensors, self.source = self._check_array(sensors, source)
''', '''        checked_sensors, checked_source = self._check_array(sensors, source)
        self.source = checked_source
        self.sensors = checked_sensors
'''))
E("d-arr-trim-index", "array1d.py", ('''        for sensor in self.sensors:
            sensor.trim(start_time, end_time)
''', '''        for index in range(len(self.sensors)):
            self.sensors[index].trim(start_time=start_time, end_time=end_time)
'''))
E("d-arr-pad-iter", "array1d.py", ('''        for sensor in self.sensors:
            sensor.zero_pad(df=df)
''', '''        sensors = iter(self.sensors)
        for sensor in sensors:
            sensor.zero_pad(df)
'''))
E("d-arr-eq-any", "array1d.py", ('''        for my, ur in zip(self.sensors, other.sensors):
            if my != ur:
                return False

        return True
''', '''        return not any(my != ur for my, ur in zip(self.sensors, other.sensors))
'''))
E("d-arr-similar-and", "array1d.py", ('''        for attr in ["nchannels", "source"]:
            if getattr(self, attr) != getattr(other, attr):
                return False

        return True
''', '''        return self.nchannels == other.nchannels and self.source == other.source
'''), ('''            if my != ur:
                return False
''', '''            if not my == ur:
                return False
'''))
E("d-arr-auto-guard", "array1d.py", ('''        if algorithm == "threshold":
            picks = self._pick_on_threshold(**algorithm_kwargs)
        else:
            raise NotImplementedError
        return picks
''', '''        if algorithm != "threshold":
            raise NotImplementedError
        return self._pick_on_threshold(**algorithm_kwargs)
'''))
E("d-arr-manual-flag", "array1d.py", ('''        pairs = self._ginput_session(ax, npts=np.inf)

        if ax.get_xlabel() == "Distance (m)":
            distance, time = pairs
        else:
            time, distance = pairs

        return (distance, time)
''', '''        first, second = self._ginput_session(ax, npts=np.inf)
        distance_is_first = ax.get_xlabel() == "Distance (m)"
        return (first, second) if distance_is_first else (second, first)
'''))
E("d-arr-pos-shift", "array1d.py", ('''        if normalize:
            position_0 = self.sensors[0].x
            return [sensor.x - position_0 for sensor in self.sensors]
        else:
            return [sensor.x for sensor in self.sensors]
''', '''        xs = [sensor.x for sensor in self.sensors]
        if not normalize:
            return xs
        return [x - xs[0] for x in xs]
'''))
E("d-arrw-files-loop", "array1d.py", ('''        trace = obspy.read(str(fnames_src[0]))[src_channel]
        dt = trace.meta.delta
        amp = np.array(trace.data, dtype=float)
        for fname in fnames_src[1:]:
            trace = obspy.read(str(fname))[src_channel]
            amp += trace.data
        amp /= len(fnames_src)
''', '''        def read_source(fname):
            return obspy.read(str(fname))[src_channel]

        first, *others = fnames_src
        trace = read_source(first)
        dt = trace.meta.delta
        amp = np.array(trace.data, dtype=float)
        for other in others:
            amp = amp + read_source(other).data
        amp = amp / len(fnames_src)
'''))
E("d-arrw-files-inner", "array1d.py", ('''        _cls = Array1D.from_files(fnames=fnames_rec, map_x=map_x, map_y=map_y)
''', '''        receivers = Array1D.from_files(fnames_rec, map_x, map_y)
'''), ('''        source = SourceWithSignal(_cls.source.x,
                                  _cls.source.y,
                                  _cls.source.z,
                                  amp,
                                  dt)

        return cls(_cls.sensors, source)
''', '''        shot = receivers.source
        source = SourceWithSignal(x=shot.x, y=shot.y, z=shot.z, amp=amp, dt=dt)
        return cls(receivers.sensors, source)
'''))
E("d-gin-helper", "interact.py", ('''            text = ax.text(0.95, 0.95, ask_to_continue_message,
                           ha="right", va="top",
                           transform=ax.transAxes)
            while True:
                if plt.waitforbuttonpress(timeout=-1):
                    text.set_visible(False)
                    break
''', '''            text = ax.text(0.95, 0.95, ask_to_continue_message,
                           ha="right", va="top",
                           transform=ax.transAxes)
            while not plt.waitforbuttonpress(timeout=-1):
                pass
            text.set_visible(False)
'''))
E("d-gin-count", "interact.py", ('''    npt, xs, ys = 0, [], []
    while npt < npts:
''', '''    xs, ys = [], []
    while len(xs) < npts:
'''), ('''        ys.append(y)
        npt += 1
''', '''        ys.append(y)
'''))
E("d-gin-last", "interact.py", ('''        x, y = vals[-1]
        ax.plot(x, y, "r", marker="+", linestyle="")
        xs.append(x)
        ys.append(y)
        npt += 1
''', '''        picked = vals[-1]
        npt += 1
        ax.plot(picked[0], picked[1], "r", marker="+", linestyle="")
        for values, value in zip((xs, ys), picked):
            values.append(value)
'''))
E("d-wf-signal-guard", "maswworkflows.py", ('''        if snr["perform"] and self.signal is None:
            # Copy array and trim noise.
            self.signal = Array1D.from_array1d(self.array)
            self.signal.trim(snr["signal"]["begin"], snr["signal"]["end"])
''', '''        if not snr["perform"] or self.signal is not None:
            return
        window = snr["signal"]
        signal = Array1D.from_array1d(self.array)
        signal.trim(window["begin"], window["end"])
        self.signal = signal
'''))
E("d-wf-snr-kwargs", "maswworkflows.py", ('''        snr = self.settings["signal-to-noise"]
        process = self.settings["processing"]
        if snr["perform"]:
            self.snr = SignaltoNoiseRatio.from_array1ds(
                self.signal, self.noise,
                fmin=process["fmin"], fmax=process["fmax"],
                pad_snr=snr["pad"]["apply"], df_snr=snr["pad"]["df"])
''', '''        snr = self.settings["signal-to-noise"]
        if not snr["perform"]:
            return
        process, pad = self.settings["processing"], snr["pad"]
        limits = {key: process[key] for key in ("fmin", "fmax")}
        self.snr = SignaltoNoiseRatio.from_array1ds(self.signal, self.noise,
                                                    pad_snr=pad["apply"],
                                                    df_snr=pad["df"], **limits)
'''))
E("d-wf-single-name", "maswworkflows.py", ('''        if not isinstance(self.fnames, (str,)) and len(self.fnames) != 1:
            self.fnames = self.fnames[0]
            msg''', '''        is_name = isinstance(self.fnames, str)
        if not (is_name or len(self.fnames) == 1):
            first, *_ = self.fnames
            self.fnames = first
            msg'''))
E("d-wf-xcorr-locals", "maswworkflows.py", ('''        self.array = Array1DwSource.from_files(self.fnames,
                                               self.fnames_src,
                                               self.src_channel,
                                               map_x=self.map_x,
                                               map_y=self.map_y)
        self.array.trim(0, max(self.array.sensors[0].time))
        self.array.source.trim(0, max(self.array.source.time))
''', '''        array = Array1DwSource.from_files(self.fnames, self.fnames_src,
                                          self.src_channel, self.map_x, self.map_y)
        self.array = array
        for target, series in ((array, array.sensors[0]), (array.source, array.source)):
            target.trim(0, max(series.time))
'''))
E("d-wf-xcorr-proc", "maswworkflows.py", ('''        self.array.xcorrelate(self.settings["processing"]["vmin"],
                              self.settings["processing"]["vmax"])
        self.pad()
        proc = self.settings["processing"]
''', '''        proc = self.settings["processing"]
        self.array.xcorrelate(*(proc[key] for key in ("vmin", "vmax")))
        self.pad()
'''))
E("d-wf-str-join", "maswworkflows.py", ('''        msg = "\\n"
        msg += "MaswWorkflow: frequency-domain\\n"
        msg += "  - Create Array1D from file.\\n"
''', '''        msg = "\\nMaswWorkflow: frequency-domain\\n"
        msg = msg + "  - Create Array1D from file.\\n"
'''))
E("d-wf-init-super", "maswworkflows.py", ('''        self.fnames = fnames
        self.settings = settings
        self.map_x = map_x
        self.map_y = map_y
''', '''        self.fnames, self.settings = fnames, settings
        self.map_x, self.map_y = map_x, map_y
'''), ('''        self.signal_start = None
        self.signal_end = None
        self.noise = None
        self.signal = None
        self.snr = None
''', '''        self.signal_start = self.signal_end = None
        for name in ("noise", "signal", "snr"):
            setattr(self, name, None)
'''))
E("d-masw-xcorr-name", "masw.py", ('''        if settings["workflow"] != "time-domain-xcorr":
            raise NotImplementedError

        selected_workflow = settings["workflow"]
''', '''        selected_workflow = settings["workflow"]
        if not selected_workflow == "time-domain-xcorr":
            raise NotImplementedError
'''))
E("d-pk-dict-get", "peaks.py", ('''        data_dict = dict(data_dict)
        valid = data_dict.pop("valid", None)

        obj = cls(identifier=identifier, **data_dict)

        if valid is not None:
            obj._valid = np.array(valid, dtype=bool)

        return obj
''', '''        arguments = {key: value for key, value in data_dict.items() if key != "valid"}
        obj = cls(identifier=identifier, **arguments)

        valid = data_dict.get("valid")
        if valid is not None:
            obj._valid = np.array(valid, dtype=bool)

        return obj
'''))
E("d-pk-limits-where", "peaks.py", ('''            np.greater(_attr, _max, out=bool_array, where=self._valid)
            np.less(_attr, _min, out=bool_array,
                    where=np.logical_and(self._valid, ~bool_array))
''', '''            too_large = np.logical_and(self._valid, _attr > _max)
            too_small = np.logical_and(self._valid, _attr < _min)
            bool_array = np.logical_or(too_large, too_small)
'''))
E("d-pk-box-kw", "peaks.py", ('''        bool_array = self._reject_box_inside_bool_array(xtype, xlims,
                                                        ytype, ylims)
        self._reject(bool_array)
''', '''        self._reject(self._reject_box_inside_bool_array(xtype=xtype, xlims=xlims,
                                                        ytype=ytype, ylims=ylims))
'''))
E("d-pk-types-first", "peaks.py", ('''            if isinstance(value, str):
                kwargs[key] = [value]
            elif isinstance(value, (list, tuple)):
                pass
            else:
                msg = f"{key} must be a str or iterable not, {type(key)}."
                raise TypeError(msg)
''', '''            if not isinstance(value, (str, list, tuple)):
                raise TypeError(f"{key} must be a str or iterable not, {type(key)}.")
            if isinstance(value, str):
                kwargs[key] = [value]
'''))
E("d-pk-axes-loop", "peaks.py", ('''        # x-axis
        for key, value in defaults.get(xtype, {}).items():
            getattr(ax, f"set_x{key}")(value)

        # y-axis
        for key, value in defaults.get(ytype, {}).items():
            getattr(ax, f"set_y{key}")(value)
''', '''        for axis, name in (("x", xtype), ("y", ytype)):
            for key, value in defaults.get(name, {}).items():
                getattr(ax, f"set_{axis}{key}")(value)
'''))
E("d-ps-init-helper", "peakssuite.py", ('''        self._check_input(peaks)
        self.peaks = [peaks]
        self.ids = [peaks.identifier]
''', '''        self._check_input(peaks)
        self.peaks, self.ids = [], []
        self.peaks.append(peaks)
        self.ids.append(peaks.identifier)
'''))
E("d-ps-box-kw", "peakssuite.py", ('''        for peak in self.peaks:
            peak.reject_box_inside(xtype, xlims, ytype, ylims)
''', '''        box = dict(xtype=xtype, xlims=xlims, ytype=ytype, ylims=ylims)
        for peaks in self.peaks:
            peaks.reject_box_inside(**box)
'''))
E("d-ps-stats-merge", "peakssuite.py", ('''        errorbar_kwargs = {} if errorbar_kwargs is None else errorbar_kwargs
        default_kwargs = dict(linestyle="", color="k", label=None,
                              marker="o", markerfacecolor="k",
                              markersize=0.5, capsize=2, zorder=20)
        errorbar_kwargs = {**default_kwargs, **errorbar_kwargs}
        ax.errorbar(xx, mean, yerr=stddev, **errorbar_kwargs)
''', '''        kwargs = dict(linestyle="", color="k", label=None,
                      marker="o", markerfacecolor="k",
                      markersize=0.5, capsize=2, zorder=20)
        if errorbar_kwargs is not None:
            kwargs.update(errorbar_kwargs)
        ax.errorbar(xx, mean, yerr=stddev, **kwargs)
'''))
E("d-ps-dicts-comp", "peakssuite.py", ('''        peaks = []
        for _dict in dicts:
            for identifier, data in _dict.items():
                peaks.append(Peaks.from_dict(data, identifier=identifier))

        return cls.from_peaks(peaks)
''', '''        return cls.from_peaks([Peaks.from_dict(data, identifier=identifier)
                               for _dict in dicts
                               for identifier, data in _dict.items()])
'''))
E("d-ps-suites-first", "peakssuite.py", ('''        obj = cls.from_peaks(peakssuites[0].peaks)

        for peaksuite in peakssuites[1:]:
            for peak in peaksuite:
                obj.append(peak)

        return obj
''', '''        first, *rest = peakssuites
        obj = cls.from_peaks(first.peaks)

        for peaksuite in rest:
            for peak in peaksuite.peaks:
                obj.append(peak)

        return obj
'''))
E("d-ps-kwargs-comp", "peakssuite.py", ('''                if isinstance(value, str) or value is None:
                    new_dict[key] = value
                elif isinstance(value, (list, tuple)):
                    new_dict[key] = value[index]
                else:
                    msg = f"kwarg must be a `str` or `iterable` not {type(value)}."
                    raise NotImplementedError(msg)
''', '''                if isinstance(value, (list, tuple)):
                    new_dict[key] = value[index]
                elif value is None or isinstance(value, str):
                    new_dict[key] = value
                else:
                    raise NotImplementedError(f"kwarg must be a `str` or `iterable` not {type(value)}.")
'''))
E("d-ps-limits-return", "peakssuite.py", ('''        try:
            limits = PeaksSuite.calc_resolution_limits(xtype, attribute,
                                                       ytype, limits, xs, ys)
        except NotImplementedError:
            warnings.warn("Could not calculate resolution limits.")
        else:
            plot_kwargs = {} if plot_kwargs is None else plot_kwargs
            default_kwargs = dict(color="#000000", linestyle="--",
                                  linewidth=0.75, label="limit")
            plot_kwargs = {**default_kwargs, **plot_kwargs}

            for limit_pair in limits:
                ax.plot(*limit_pair, **plot_kwargs)
                plot_kwargs["label"] = None
''', '''        try:
            limits = PeaksSuite.calc_resolution_limits(xtype, attribute,
                                                       ytype, limits, xs, ys)
        except NotImplementedError:
            warnings.warn("Could not calculate resolution limits.")
            return

        default_kwargs = dict(color="#000000", linestyle="--",
                              linewidth=0.75, label="limit")
        kwargs = {**default_kwargs, **(plot_kwargs or {})}

        for limit_x, limit_y in limits:
            ax.plot(limit_x, limit_y, **kwargs)
            kwargs["label"] = None
'''))
E("d-sen-eq", "sensor1c.py", ('''        if not super().__eq__(other):
            return False

        return True
''', '''        return bool(super().__eq__(other))
'''))
E("d-sen-header", "sensor1c.py", ('''        try:
            value = conversion_function(getattr(header, name_to_get))
        except:
            msg = f"Failed to get {name_to_get}, set to {default_value}."
            warnings.warn(msg)
            value = default_value
        return value
''', '''        try:
            return conversion_function(getattr(header, name_to_get))
        except Exception:
            warnings.warn(f"Failed to get {name_to_get}, set to {default_value}.")
        return default_value
'''))
E("d-sen-seg2", "sensor1c.py", ('''        header = trace.stats.seg2

        return cls.from_trace(trace,
                              read_header=False,
                              format="SEG2",
                              nstacks=cls._safely_get_header(header, "STACK", 1, int),
                              delay=cls._safely_get_header(header, "DELAY", 0., float),
                              x=map_x(cls._safely_get_header(header, "RECEIVER_LOCATION", 0., float)),
                              y=map_y(0),
                              z=0)
''', '''        header = trace.stats.seg2

        def get(name, default, kind):
            return cls._safely_get_header(header, name, default, kind)

        nstacks = get("STACK", 1, int)
        delay = get("DELAY", 0., float)
        location = get("RECEIVER_LOCATION", 0., float)
        return cls.from_trace(trace, read_header=False, format="SEG2",
                              nstacks=nstacks, delay=delay,
                              x=map_x(location), y=map_y(0), z=0)
'''))
E("d-sen-segy-loop", "sensor1c.py", ('''        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

        return cls.from_trace(trace,
                              read_header=False,
                              format="SEGY",
''', '''        ndigits = -np.sign(scaleco) * int(np.log10(abs(scaleco)))
        coordinates = []
        for name in ("group_coordinate_x", "group_coordinate_y"):
            value = cls._safely_get_header(header, name, 0, int)
            if scaleco < 0:
                value = value / abs(scaleco)
            else:
                value = value * scaleco
            coordinates.append(round(value, ndigits))
        x, y = coordinates

        return cls.from_trace(trace,
                              read_header=False,
                              format="SEGY",
'''))
E("d-sen-from-ats", "sensor1c.py", ('''        obj = cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
                  nstacks=activetimeseries.nstacks)
''', '''        series = activetimeseries
        obj = cls(amplitude=series.amplitude, dt=series.dt, x=x, y=y, z=z,
                  nstacks=series.nstacks)
'''))
E("d-src-init", "source.py", ('''        self._x = float(x)
        self._y = float(y)
        self._z = float(z)
''', '''        self._x, self._y, self._z = (float(value) for value in (x, y, z))
'''))
E("d-srcw-super", "source.py", ('''        Source.__init__(self, x, y, z)
        TimeSeries.__init__(self, amp, dt)
''', '''        TimeSeries.__init__(self, amp, dt)
        Source.__init__(self, x=x, y=y, z=z)
'''))
E("d-st-drop-helper", "stats.py", ('''        xx_1 = np.delete(xx, drop_cols)
        data_matrix_1 = np.delete(data_matrix, drop_cols, axis=1)
''', '''        data_matrix_1 = np.delete(data_matrix, drop_cols, axis=1)
        xx_1 = np.delete(xx, drop_cols)
'''), ('''        r_nans = np.sum(np.isnan(data_matrix_1))
        r_nums = data_matrix_1.size - r_nans
        utility_option_1 = (i_nans - r_nans) / (i_nums - r_nums + 1)
''', '''        def utility(reduced):
            r_nans = np.sum(np.isnan(reduced))
            r_nums = reduced.size - r_nans
            return (i_nans - r_nans) / (i_nums - r_nums + 1)

        utility_option_1 = utility(data_matrix_1)
'''), ('''        r_nans = np.sum(np.isnan(data_matrix_2))
        r_nums = data_matrix_2.size - r_nans
        utility_option_2 = (i_nans - r_nans) / (i_nums - r_nums + 1)
''', '''        utility_option_2 = utility(data_matrix_2)
'''), ('''        if utility_option_1 > utility_option_2:
            return (xx_1, data_matrix_1)
        else:
            return (xx_2, data_matrix_2)
''', '''        if utility_option_2 < utility_option_1:
            return (xx_1, data_matrix_1)
        return (xx_2, data_matrix_2)
'''))
E("d-st-indices-not", "stats.py", ('''            n_nan = np.sum(np.isnan(row))
            n_tot = len(row)
            n_num = n_tot - n_nan
            p_num = n_num/n_tot
            if n_num < drop_if_fewer_count or p_num < drop_if_fewer_percent:
                drop_indices.append(index)
''', '''            n_num = np.sum(~np.isnan(row))
            enough = n_num >= drop_if_fewer_count and n_num/len(row) >= drop_if_fewer_percent
            if not enough:
                drop_indices.append(index)
'''))
E("d-wt-from-kw", "wavefieldtransforms.py", ('''        vels = cls._create_vector(settings["vmin"], settings["vmax"],
                                  settings["nvel"], settings["vspace"])

        # Perform transform.
        frqs, powr = cls.transform(array, vels, settings)

        # Create WavefieldTransform object.
        return cls(frqs, vels, powr)
''', '''        keys = ("vmin", "vmax", "nvel", "vspace")
        velocities = cls._create_vector(*[settings[key] for key in keys])

        # Perform transform.
        frequencies, power = cls.transform(array, velocities, settings)

        # Create WavefieldTransform object.
        return cls(frequencies, velocities, power)
'''))
E("d-wt-slant-order", "wavefieldtransforms.py", ('''        # Perform slant-stack
        nsamples = array[0].nsamples
        slant_stack = cls.slant_stack(array, velocities)

        # Frequency vector
        sensor = array[0]
        frequencies = np.arange(nsamples) * sensor._df

        # Fourier Transform of the slant-stack
        power = np.fft.fft(slant_stack, n=nsamples)
''', '''        sensor = array[0]
        nsamples = sensor.nsamples

        # Frequency vector
        frequencies = sensor._df * np.arange(nsamples)

        # Fourier Transform of the slant-stack
        power = np.fft.fft(cls.slant_stack(array, velocities), nsamples)
'''))
E("d-wt-init-chain", "wavefieldtransforms.py", ('''        self.n = 1
        self.frequencies = frequencies
        self.velocities = velocities
        self.power = power

        # Pre-define internal state attributes
        self._to_abs = 1.

        # Pre-define optional attributes
        self.snr = None
        self.snr_frequencies = None
        self.array = None
''', '''        self.frequencies, self.velocities, self.power = frequencies, velocities, power
        self.n, self._to_abs = 1, 1.
        self.snr = self.snr_frequencies = self.array = None
'''))
E("d-reg-table", "register.py", ('''            cls._register[name] = class_to_wrap
            return class_to_wrap
''', '''            table = cls._register
            table.update({name: class_to_wrap})
            return class_to_wrap
'''))
E("d-rx-spac", "regex.py", ('''    if component not in ["(0)", "0"]:
''', '''    allowed = ("0", "(0)")
    if not component in allowed:
'''), ('''    pattern = f"{time} {number} {component} {ring} {number}"
    return re.compile(pattern)
''', '''    columns = [time, number, component, ring, number]
    return re.compile(" ".join(columns))
'''))
E("d-ms-name-helper", "utils.py", ('''        starttime = datetime.datetime(year=series["start year"],
                                      month=series["start month"],
                                      day=series["start date"],
                                      hour=series["start hour"],
                                      tzinfo=datetime.timezone.utc)
''', '''        def time_of(which):
            return datetime.datetime(series[f"{which} year"], series[f"{which} month"],
                                     series[f"{which} date"], series[f"{which} hour"],
                                     tzinfo=datetime.timezone.utc)

        starttime = time_of("start")
'''), ('''        endtime = datetime.datetime(year=series["end year"],
                                    month=series["end month"],
                                    day=series["end date"],
                                    hour=series["end hour"],
                                    tzinfo=datetime.timezone.utc)
''', '''        endtime = time_of("end")
'''))
E("d-ms-none", "utils.py", ('''        append = False
        dt = datetime.timedelta(hours=1)
''', '''        dt = datetime.timedelta(hours=1)
'''), ('''            if append:
                reads += obspy.read(str(data_dir / fname))
            else:
                reads = obspy.read(str(data_dir / fname))
                append = True

            currenttime += dt
''', '''            current = obspy.read(str(data_dir / fname))
            if reads is None:
                reads = current
            else:
                reads += current

            currenttime = currenttime + dt
'''))
E("d-ms-folder", "utils.py", ('''        folder = series["folder name"]
        if not os.path.isdir(f"{output_dir / folder}"):
            logger.info(f"Creating folder: {output_dir / folder}")
            os.mkdir(f"{output_dir / folder}")
''', '''        folder = series["folder name"]
        folder_path = str(output_dir / folder)
        if not os.path.isdir(folder_path):
            logger.info(f"Creating folder: {folder_path}")
            os.mkdir(folder_path)
'''))
E("d-ms-station", "utils.py", ('''        reads = reads.merge(method=1)

        # Trim merged traces between specified start and end times
        trim_start = obspy.UTCDateTime(series["start year"], series["start month"],
                                       series["start date"], series["start hour"],
                                       series["start minute"], series["start second"])
        trim_end = obspy.UTCDateTime(series["end year"], series["end month"],
                                     series["end date"], series["end hour"],
                                     series["end minute"], series["end second"])
        reads.trim(starttime=trim_start, endtime=trim_end)
''', '''        reads = reads.merge(method=1)

        # Trim merged traces between specified start and end times
        parts = ("year", "month", "date", "hour", "minute", "second")
        trim_start, trim_end = (obspy.UTCDateTime(*[series[f"{which} {part}"] for part in parts])
                                for which in ("start", "end"))
        reads.trim(trim_start, trim_end)
'''), ('''            if isinstance(tr.data, np.ma.masked_array):
                tr.data = tr.data.filled()
''', '''            data = tr.data
            if isinstance(data, np.ma.masked_array):
                tr.data = data.filled()
'''))
E("d-ms-break", "utils.py", ('''        while currenttime <= endtime:
''', '''        while True:
            if currenttime > endtime:
                break
'''))
E("d-ms-number", "utils.py", ('''        # Loop across the required hours and merge traces.
''', '''        station = str(series["station number"]).zfill(2)

        # Loop across the required hours and merge traces.
'''), ('''        fname_out = output_dir / folder / f"{network}.STN{str(series['station number']).zfill(2)}.{series['array name']}.{extension}"
''', '''        fname_out = output_dir / folder / (network + ".STN" + station + "." + series["array name"] + "." + extension)
'''))
E("d-ms-first", "utils.py", ('''        append = False
        dt = datetime.timedelta(hours=1)
        reads = None
        while currenttime <= endtime:

            # miniSEED file name: NW.STNSN_SENSOR_YYYYMMDD_HH0000.miniseed
            fname = f"{network}.STN{str(series['station number']).zfill(2)}_{currenttime.year}{str(currenttime.month).zfill(2)}{str(currenttime.day).zfill(2)}_{str(currenttime.hour).zfill(2)}0000.{extension}"

            # Read current file and append if necessary
            if append:
                reads += obspy.read(str(data_dir / fname))
            else:
                reads = obspy.read(str(data_dir / fname))
                append = True

            currenttime += dt
''', '''        dt = datetime.timedelta(hours=1)
        prefix = f"{network}.STN{str(series['station number']).zfill(2)}"

        def hour_file(when):
            date = f"{when.year}{str(when.month).zfill(2)}{str(when.day).zfill(2)}"
            return str(data_dir / f"{prefix}_{date}_{str(when.hour).zfill(2)}0000.{extension}")

        reads = obspy.read(hour_file(currenttime))
        currenttime += dt
        while currenttime <= endtime:
            reads += obspy.read(hour_file(currenttime))
            currenttime += dt
'''))
E("d-ms-pathmethods", "utils.py", ('''        if not os.path.isdir(f"{output_dir / folder}"):
            logger.info(f"Creating folder: {output_dir / folder}")
            os.mkdir(f"{output_dir / folder}")
''', '''        folder_path = output_dir / folder
        if not folder_path.is_dir():
            logger.info(f"Creating folder: {folder_path}")
            folder_path.mkdir()
'''), ('''        fname_out = output_dir / folder / f"{network}''', '''        fname_out = folder_path / f"{network}'''))
E("d-ms-existok", "utils.py", ('''        if not os.path.isdir(f"{output_dir / folder}"):
            logger.info(f"Creating folder: {output_dir / folder}")
            os.mkdir(f"{output_dir / folder}")
''', '''        (output_dir / folder).mkdir(exist_ok=True)
'''))
E("d-ms-strftime", "utils.py", ('''{currenttime.year}{str(currenttime.month).zfill(2)}{str(currenttime.day).zfill(2)}_{str(currenttime.hour).zfill(2)}0000''', '''{currenttime:%Y%m%d_%H}0000'''))
E("d-ms-format02", "utils.py", ('''{currenttime.year}{str(currenttime.month).zfill(2)}{str(currenttime.day).zfill(2)}_{str(currenttime.hour).zfill(2)}0000''', '''{currenttime.year}{currenttime.month:02d}{currenttime.day:02d}_{currenttime.hour:02d}0000'''))
E("d-eq-ats-all", "activetimeseries.py", ('''        for attr in ["dt", "nstacks", "delay", "nsamples"]:
            if attr in exclude:
                continue
            if getattr(self, attr) != getattr(other, attr):
                return False
        return True
''', '''        considered = [attr for attr in ("dt", "nstacks", "delay", "nsamples") if attr not in exclude]
        return all(getattr(self, attr) == getattr(other, attr) for attr in considered)
'''))
E("d-eq-ats-amp", "activetimeseries.py", ('''        if not self._is_similar(other):
            return False

        if not np.allclose(self.amplitude, other.amplitude):
            return False

        return True
''', '''        return self._is_similar(other) and bool(np.allclose(self.amplitude, other.amplitude))
'''))
E("d-eq-arr-and", "array1d.py", ('''        for attr in ["nchannels", "source"]:
            if getattr(self, attr) != getattr(other, attr):
                return False

        return True
''', '''        return self.nchannels == other.nchannels and self.source == other.source
'''))
E("d-eq-arr-all", "array1d.py", ('''        if not self.is_similar(other):
            return False

        for my, ur in zip(self.sensors, other.sensors):
            if my != ur:
                return False

        return True
''', '''        if not self.is_similar(other):
            return False
        return all(my == ur for my, ur in zip(self.sensors, other.sensors))
'''))
E("d-eq-arr-lists", "array1d.py", ('''        for my, ur in zip(self.sensors, other.sensors):
            if my != ur:
                return False

        return True
''', '''        return self.sensors == other.sensors
'''))
E("d-eq-sensor-direct", "sensor1c.py", ('''        if not super().__eq__(other):
            return False

        return True
''', '''        return super().__eq__(other)
'''))
E("d-eq-sensor-similar", "sensor1c.py", ('''        for attr in ["x", "y", "z"]:
            if attr in exclude:
                continue
            if getattr(self, attr) != getattr(other, attr):
                return False

        if not super()._is_similar(other, exclude=exclude):
            return False

        return True
''', '''        if not super()._is_similar(other, exclude=exclude):
            return False

        for attr in {"x", "y", "z"} - set(exclude):
            if getattr(self, attr) != getattr(other, attr):
                return False
        return True
'''))
E("d-eq-source", "source.py", ('''        for attr in ["x", "y", "z"]:
            if getattr(self, attr) != getattr(other, attr):
                return False
        return True
''', '''        return (self.x, self.y, self.z) == (other.x, other.y, other.z)
'''))

# ---------------------------------------------------------------- stats
E("st-fill-mask", "stats.py", ('''            invalid_ids = np.flatnonzero(np.isnan(ys))
            valid_ids = np.flatnonzero(~np.isnan(ys))
''', '''            invalid_ids = np.isnan(ys)
            valid_ids = ~invalid_ids
'''))
E("st-fill-any", "stats.py", ('''            xs = log_xx[row:]
            ys = corr_row[row:]
            if np.sum(np.isnan(ys)) > 0:
''', '''            xs = log_xx[row:]
            ys = corr_row[row:]
            if np.isnan(ys).any():
'''))
E("st-fill-nested-inline", "stats.py", ('''        def exponential_decay(x, y0, decay_factor):
            return y0*np.power(decay_factor, x)

''', '''        def exponential_decay(distance, start, base):
            return start*base**distance

'''))
E("st-fill-range", "stats.py", ('''        for row, corr_row in enumerate(corr_matrix):
            # Fill right
''', '''        for row in range(len(corr_matrix)):
            corr_row = corr_matrix[row]
            # Fill right
'''))
E("st-sort-copy", "stats.py", ('''                tmp_row[:] = data_matrix[c_row][:]
                data_matrix[c_row][:] = data_matrix[val_id][:]
                data_matrix[val_id][:] = tmp_row[:]
''', '''                tmp_row = data_matrix[c_row].copy()
                data_matrix[c_row] = data_matrix[val_id]
                data_matrix[val_id] = tmp_row
'''), ('''        tmp_row = np.empty(ncols, dtype=data_matrix.dtype)
''', ''))
E("st-sort-cols", "stats.py", ('''        for column in data_matrix.T:
            val_ids = np.argwhere(np.logical_and(~np.isnan(column),
                                                 row_ids >= c_row))
            for val_id in val_ids.flatten():
''', '''        for col in range(ncols):
            present = ~np.isnan(data_matrix[:, col])
            for val_id in np.flatnonzero(present & (row_ids >= c_row)):
'''))
E("st-sort-enum", "stats.py", ('''            for val_id in val_ids.flatten():
                tmp_row[:]''', '''            for c_row, val_id in enumerate(val_ids.flatten(), start=c_row):
                tmp_row[:]'''), ('''                data_matrix[val_id][:] = tmp_row[:]
                c_row += 1
''', '''                data_matrix[val_id][:] = tmp_row[:]
            c_row += len(val_ids) > 0
'''))
E("st-region-helper", "stats.py", ('''            if c_col+1 == ncols:
                break
            else:
                s_col = int(c_col)+1
                s_row = np.argwhere(~np.isnan(data_matrix[:, s_col]))[0][0]
''', '''            if c_col == ncols-1:
                break
            s_col = c_col+1
            s_row = np.flatnonzero(~np.isnan(data_matrix[:, s_col]))[0]
'''))
E("st-region-density", "stats.py", ('''                    row = data_matrix[c_row+1, s_col:c_col+1]
                    # print(row)

                    total = len(row)
                    n_nan = np.sum(np.isnan(row))
                    n_val = total - n_nan
''', '''                    row = data_matrix[c_row+1, s_col:c_col+1]
                    total = row.size
                    n_val = np.sum(~np.isnan(row))
'''))
E("st-region-flags", "stats.py", ('''                    if density >= density_threshold:
                        col_failed = False
                        n_vals += n_val
                        totaln += total
                        c_col += 1
                    else:
                        col_failed = True
                else:
                    col_failed = True
''', '''                    col_failed = density < density_threshold
                    if not col_failed:
                        n_vals += n_val
                        totaln += total
                        c_col += 1
                else:
                    col_failed = True
'''))
E("st-data-helper", "stats.py", ('''            for region in regions:
                ((s_row, s_col), (e_row, e_col)) = region
                data_matrix[s_row:e_row, s_col:e_col] = cls._fill_data(data_matrix[s_row:e_row, s_col:e_col],
                                                                       means=mean[s_col:e_col],
                                                                       stddevs=stddev[s_col:e_col])
''', '''            cls._fill_regions(data_matrix, regions, mean, stddev)
'''), ('''    @staticmethod
    def _sort(data_matrix):
''', '''    @classmethod
    def _fill_regions(cls, data_matrix, regions, mean, stddev):
        for (s_row, s_col), (e_row, e_col) in regions:
            cols = slice(s_col, e_col)
            data_matrix[s_row:e_row, cols] = cls._fill_data(data_matrix[s_row:e_row, cols],
                                                            means=mean[cols],
                                                            stddevs=stddev[cols])

    @staticmethod
    def _sort(data_matrix):
'''))
E("st-data-accept", "stats.py", ('''            if p_diff_mean < 0.05 and diff_cov < 0.01:
                break
            else:
                data_matrix[nan_mask] = np.nan
''', '''            accepted = p_diff_mean < 0.05 and diff_cov < 0.01
            if accepted:
                break
            data_matrix[nan_mask] = np.nan
'''))
E("st-data-defaults", "stats.py", ('''        drop_kwargs = {} if drop_kwargs is None else drop_kwargs
        default_drop_kwargs = dict(drop_observation_if_fewer_percent=0,
                                   drop_sample_if_fewer_percent=0,
                                   drop_sample_if_fewer_count=3)
        drop_kwargs = {**default_drop_kwargs, **drop_kwargs}
''', '''        settings = {"drop_observation_if_fewer_percent": 0,
                    "drop_sample_if_fewer_percent": 0,
                    "drop_sample_if_fewer_count": 3}
        if drop_kwargs is not None:
            settings.update(drop_kwargs)
        drop_kwargs = settings
'''))
E("st-data-rate", "stats.py", ('''            p_diff_mean = np.max(np.abs((new_mean - mean)/mean))
''', '''            p_diff_mean = np.abs(new_mean/mean - 1).max()
'''))
E("st-filldata-where", "stats.py", ('''            nan_ids = np.flatnonzero(np.isnan(data))
            for _id in nan_ids:
                value = rng.normal(mean, stddev)
                data_matrix[_id, col] = value
''', '''            for _id in np.where(np.isnan(data))[0]:
                data_matrix[_id, col] = rng.normal(mean, stddev)
'''))
E("st-filldata-hasattr", "stats.py", ('''        try:
            getattr(rng, "normal")
        except AttributeError:
            rng = default_rng(PCG64())
''', '''        if not hasattr(rng, "normal"):
            rng = default_rng(PCG64())
'''))
E("st-drop-option-helper", "stats.py", ('''        i_nans = np.sum(np.isnan(data_matrix))
        i_nums = data_matrix.size - i_nans
''', '''        i_nums = np.sum(~np.isnan(data_matrix))
        i_nans = data_matrix.size - i_nums
'''), ('''        if utility_option_1 > utility_option_2:
            return (xx_1, data_matrix_1)
        else:
            return (xx_2, data_matrix_2)
''', '''        columns_first = utility_option_1 > utility_option_2
        return (xx_1, data_matrix_1) if columns_first else (xx_2, data_matrix_2)
'''))
E("st-drop-indices-comp", "stats.py", ('''        drop_indices = []
        for index, row in enumerate(data_matrix):
            n_nan = np.sum(np.isnan(row))
            n_tot = len(row)
            n_num = n_tot - n_nan
            p_num = n_num/n_tot
            if n_num < drop_if_fewer_count or p_num < drop_if_fewer_percent:
                drop_indices.append(index)
        return np.array(drop_indices, dtype=int)
''', '''        n_tot = data_matrix.shape[1]
        n_num = n_tot - np.sum(np.isnan(data_matrix), axis=1)
        sparse = np.logical_or(n_num < drop_if_fewer_count,
                               n_num/n_tot < drop_if_fewer_percent)
        return np.flatnonzero(sparse)
'''))
E("st-stat-dict", "stats.py", ('''        mean = np.nanmean(data_matrix, axis=0)
        stddev = np.nanstd(data_matrix, axis=0, ddof=1)
        return (mean, stddev)
''', '''        return tuple(f(data_matrix, axis=0, **k) for f, k in ((np.nanmean, {}), (np.nanstd, {"ddof": 1})))
'''))
E("st-corr-helper", "stats.py", ('''        corr = np.full((data_matrix.shape[1],)*2, np.nan)
''', '''        _, ncols = data_matrix.shape
        corr = np.full((ncols, ncols), np.nan)
'''))

# ---------------------------------------------------------------- functions the earlier batches left alone
E("e-a1-position-helper", "array1d.py", ('''        if normalize:
            position_0 = self.sensors[0].x
            return [sensor.x - position_0 for sensor in self.sensors]
        else:
            return [sensor.x for sensor in self.sensors]
''', '''        origin = self.sensors[0].x if normalize else None
        positions = []
        for sensor in self.sensors:
            positions.append(sensor.x if origin is None else sensor.x - origin)
        return positions
'''))
E("e-a1-spacing-early", "array1d.py", ('''        position = self.position()
        min_spacing = min(np.diff(position))
        max_spacing = max(np.diff(position))
        if (max_spacing - min_spacing) < 1E-2:
            return round(min_spacing, 2)
        else:
            raise ValueError("spacing undefined for non-equally spaced arrays")
''', '''        spacings = np.diff(self.position())
        smallest, largest = min(spacings), max(spacings)
        if largest - smallest >= 1E-2:
            raise ValueError("spacing undefined for non-equally spaced arrays")
        return round(smallest, 2)
'''))
E("e-a1-pick-flatnonzero", "array1d.py", ('''        times = []
        for trace in traces:
            pindices = np.argwhere(abs(trace-np.mean(trace[:10])) > threshold)
            index = int(pindices.flatten()[0])
            times.append(time[index])

        return (self.position(), times)
''', '''        def first_above(trace):
            residual = abs(trace-np.mean(trace[:10]))
            return int(np.flatnonzero(residual > threshold)[0])

        times = [time[first_above(trace)] for trace in traces]
        return (self.position(), times)
'''))
E("e-a1-from-array-comp", "array1d.py", ('''        sensors = []
        for _sensor in array1d.sensors:
            sensors.append(Sensor1C.from_sensor1c(_sensor))
        source = Source.from_source(array1d.source)
        obj = cls(sensors, source)
        return obj
''', '''        sensors = [Sensor1C.from_sensor1c(sensor) for sensor in array1d.sensors]
        return cls(sensors, Source.from_source(array1d.source))
'''))
E("e-a1-matrix-split", "array1d.py", ('''        for i, sensor in enumerate(self.sensors):
            _amp = sensor.amplitude
            amp = signal.detrend(_amp) if detrend else _amp
            amp = amp/np.max(np.abs(amp)) if normalize == "each" else amp
            matrix[i, :] = amp

        if normalize == "all":
''', '''        for i, sensor in enumerate(self.sensors):
            amp = sensor.amplitude
            if detrend:
                amp = signal.detrend(amp)
            if normalize == "each":
                peak = np.max(np.abs(amp))
                amp = amp/peak
            matrix[i] = amp

        if normalize == "all":
'''))
E("e-a1-check-split", "array1d.py", ('''        for sensor in sensors[1:]:
            if not example._is_similar(sensor, exclude=["x", "y", "z"]):
                raise ValueError("All sensors must be similar.")
            if sensor.x in positions:
                raise ValueError("Sensors must have unique x positions.")
            positions.append(sensor.x)

        # Sort sensors in terms of x from small to large
        indices = np.argsort(positions)
        sensors = [sensors[i] for i in indices]

        return (sensors, source)
''', '''        for sensor in sensors[1:]:
            similar = example._is_similar(sensor, exclude=["x", "y", "z"])
            if not similar:
                raise ValueError("All sensors must be similar.")
            x = sensor.x
            if x in positions:
                raise ValueError("Sensors must have unique x positions.")
            positions.append(x)

        # Sort sensors in terms of x from small to large
        return ([sensors[index] for index in np.argsort(positions)], source)
'''))
E("e-a1-trimoff-comp", "array1d.py", ('''        sensors = []
        for offset, sensor in zip(self.offsets, self.sensors):
            if (offset > min_offset) and (offset < max_offset):
                sensors.append(sensor)

        if len(sensors) == 0:
''', '''        sensors = [sensor for offset, sensor in zip(self.offsets, self.sensors)
                   if min_offset < offset < max_offset]

        if not sensors:
'''))
E("e-a1-picks-guard", "array1d.py", ('''        if algorithm == "threshold":
            picks = self._pick_on_threshold(**algorithm_kwargs)
        else:
            raise NotImplementedError
        return picks
''', '''        if algorithm != "threshold":
            raise NotImplementedError
        return self._pick_on_threshold(**algorithm_kwargs)
'''))
E("e-a1-imute-helper", "array1d.py", ('''        # Define the start of the signal.
        if (mute_location == "before") or (mute_location == "both"):
            xs, ys = self._ginput_session(ax, npts=2,
                                          initial_adjustment=False,
                                          ask_to_continue=False)
            ax.plot(xs, ys, color="r", linewidth=0.5)
            signal_start = parse(xs, ys)
        else:
            signal_start = None

        # Define the end of the signal.
        if (mute_location == "after") or (mute_location == "both"):
            xs, ys = self._ginput_session(ax, npts=2,
                                          initial_adjustment=False,
                                          ask_to_continue=False)
            ax.plot(xs, ys, color="r", linewidth=0.5)
            signal_end = parse(xs, ys)
        else:
            signal_end = None
''', '''        def pick_boundary():
            xs, ys = self._ginput_session(ax, npts=2,
                                          initial_adjustment=False,
                                          ask_to_continue=False)
            ax.plot(xs, ys, color="r", linewidth=0.5)
            return parse(xs, ys)

        # Define the start and the end of the signal.
        signal_start = pick_boundary() if mute_location in ("before", "both") else None
        signal_end = pick_boundary() if mute_location in ("after", "both") else None
'''))
E("e-a1-mute-line", "array1d.py", ('''        # Define starting index for each trace.
        if signal_start is not None:
            ((x1, t1), (x2, t2)) = signal_start
            slope = (t2 - t1) / (x2 - x1)
            times = t1 + slope*(position - x1)
            start_indices = np.array((times / dt) + ndelay, dtype=int)
        else:
            start_indices = np.zeros_like(position, dtype=int)

        # Define stopping index for each trace.
        if signal_end is not None:
            ((x1, t1), (x2, t2)) = signal_end
            slope = (t2 - t1) / (x2 - x1)
            times = t1 + slope*(position - x1)
            stop_indices = np.array((times / dt) + ndelay, dtype=int)
        else:
            stop_indices = np.ones_like(position, dtype=int) * (nsamples-1)
''', '''        def to_indices(line):
            (x1, t1), (x2, t2) = line
            slope = (t2 - t1) / (x2 - x1)
            return np.array((t1 + slope*(position - x1)) / dt + ndelay, dtype=int)

        # Define starting index for each trace.
        if signal_start is None:
            start_indices = np.zeros_like(position, dtype=int)
        else:
            start_indices = to_indices(signal_start)

        # Define stopping index for each trace.
        if signal_end is None:
            stop_indices = np.full_like(position, nsamples-1, dtype=int)
        else:
            stop_indices = to_indices(signal_end)
'''))
E("e-a1-mute-window", "array1d.py", ('''        window = np.zeros(nsamples)
        for i, (start, stop) in enumerate(zip(start_indices, stop_indices)):
            window[start:stop] = signal.windows.tukey(stop-start,
                                                      **window_kwargs)
            self.sensors[i]._amp *= window
            window *= 0
''', '''        for sensor, start, stop in zip(self.sensors, start_indices, stop_indices):
            window = np.zeros(nsamples)
            window[start:stop] = signal.windows.tukey(stop-start,
                                                      **window_kwargs)
            sensor._amp *= window
'''))
E("e-a1-files-parse-shared", "array1d.py", ('''        # Create array of sensors
        sensors = []
        for trace in stream.traces:
            sensor = Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
            sensors.append(sensor)
''', '''        # Create array of sensors
        sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
                   for trace in stream.traces]
        trace = stream.traces[-1]
'''))
E("e-a1-files-stack", "array1d.py", ('''        if len(fnames) > 0:
            for fname in fnames[1:]:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    stream = obspy.read(str(fname), **obspy_read_kwargs)
                nsource = parse_source(stream[0].stats)
                if nsource != source:
                    msg = f"fname = {fname} has an incompatible source."
                    raise ValueError(msg)
                new_sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
                               for trace in stream.traces]
                new = cls(new_sensors, nsource)
                if new.nchannels != obj.nchannels:
                    msg = f"fname = {fname} has an incompatible number of channels."
                    raise ValueError(msg)
                for sensor, new_sensor in zip(obj.sensors, new.sensors):
                    sensor.stack_append(new_sensor)
''', '''        for fname in fnames[1:]:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                stream = obspy.read(str(fname), **obspy_read_kwargs)
            nsource = parse_source(stream[0].stats)
            if not (nsource == source):
                raise ValueError(f"fname = {fname} has an incompatible source.")
            new_sensors = []
            for trace in stream.traces:
                new_sensors.append(Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y))
            new = cls(new_sensors, nsource)
            if obj.nchannels != new.nchannels:
                raise ValueError(f"fname = {fname} has an incompatible number of channels.")
            for i, new_sensor in enumerate(new.sensors):
                obj.sensors[i].stack_append(new_sensor)
'''))
E("e-a1-src-mean", "array1d.py", ('''        trace = obspy.read(str(fnames_src[0]))[src_channel]
        dt = trace.meta.delta
        amp = np.array(trace.data, dtype=float)
        for fname in fnames_src[1:]:
            trace = obspy.read(str(fname))[src_channel]
            amp += trace.data
        amp /= len(fnames_src)
''', '''        def read_source(fname):
            return obspy.read(str(fname))[src_channel]

        trace = read_source(fnames_src[0])
        dt = trace.meta.delta
        amp = np.array(trace.data, dtype=float)
        for fname in fnames_src[1:]:
            amp += read_source(fname).data
        amp = amp / len(fnames_src)
'''))
E("e-a1-xc-helper", "array1d.py", ('''        min_offset, max_offset = min(self.offsets), max(self.offsets)

        tmin = min_offset/vmax
        # TODO (jpv): Revisit minimum time add fudge factor for now.
        idx_dx_tmin = int((tmin-0.5)/self.source.dt)

        tmax = max_offset/vmin
        idx_dx_tmax = int(tmax/self.source.dt)
''', '''        offsets = self.offsets
        source_dt = self.source.dt

        # TODO (jpv): Revisit minimum time add fudge factor for now.
        idx_dx_tmin = int((min(offsets)/vmax - 0.5)/source_dt)
        idx_dx_tmax = int(max(offsets)/vmin/source_dt)
'''))
E("e-ats-trim-order", "activetimeseries.py", ('''        self._nstacks, self._delay = self._check_input(nstacks, delay)
        self._multiple = 1
''', '''        nstacks, delay = self._check_input(nstacks, delay)
        self._multiple = 1
        self._delay = delay
        self._nstacks = nstacks
'''))
E("e-ats-crosscorr-or", "activetimeseries.py", ('''        if not a._is_similar(b, exclude=exclude):
            raise ValueError("`a` and `b` must be similar.")

        if correlate_kwargs is None:
            correlate_kwargs = {}

        return correlate(a.amplitude, b.amplitude, **correlate_kwargs)
''', '''        if a._is_similar(b, exclude=exclude):
            kwargs = {} if correlate_kwargs is None else correlate_kwargs
            return correlate(a.amplitude, b.amplitude, **kwargs)
        raise ValueError("`a` and `b` must be similar.")
'''))
E("e-ats-cross-stack", "activetimeseries.py", ('''        _, shifted_amplitude = cls.crosscorr_shift(
            a, b_copy, exclude=("nsamples", "nstacks"))
        b_copy._amp = np.expand_dims(shifted_amplitude, axis=0)
''', '''        shifted = cls.crosscorr_shift(a, b_copy,
                                      exclude=("nsamples", "nstacks"))[1]
        b_copy._amp = shifted[np.newaxis, :]
'''))
E("e-masw-run-locals", "masw.py", ('''        Workflow = MaswWorkflowRegistry.create_class(selected_workflow)

        # Define workflow (instance) from Workflow (class).
        workflow = Workflow(fnames=fnames, settings=settings,
                            map_x=map_x, map_y=map_y)

        # Run and return.
        return workflow.run()
''', '''        # Define workflow (instance) from Workflow (class).
        workflow = MaswWorkflowRegistry.create_instance(selected_workflow,
                                                        fnames=fnames,
                                                        settings=settings,
                                                        map_x=map_x,
                                                        map_y=map_y)
        transform = workflow.run()
        return transform
'''))
E("e-wf-mute-flat", "maswworkflows.py", ('''        mute = self.settings["pre-processing"]["mute"]
        if mute["apply"]:
            if self.signal_start is None and self.signal_end is None:
                if mute["method"] == "interactive":
                    kwargs = {"window_kwargs": mute["window_kwargs"]} if mute.get("window_kwargs") else {}
                    self.signal_start, self.signal_end = self.array.interactive_mute(**kwargs)
                # TODO (jpv): Implement predefined times for muting.
                else:
                    msg = f"mute type {mute['method']} is unknown, use 'interactive'."
                    raise KeyError(msg)
            else:
                self.array.mute(signal_start=self.signal_start,
                                signal_end=self.signal_end,
                                window_kwargs=mute.get("window_kwargs") or None,
                                )
''', '''        mute = self.settings["pre-processing"]["mute"]
        if not mute["apply"]:
            return

        window_kwargs = mute.get("window_kwargs") or None
        if self.signal_start is not None or self.signal_end is not None:
            self.array.mute(signal_start=self.signal_start,
                            signal_end=self.signal_end,
                            window_kwargs=window_kwargs)
            return

        # TODO (jpv): Implement predefined times for muting.
        if mute["method"] != "interactive":
            msg = f"mute type {mute['method']} is unknown, use 'interactive'."
            raise KeyError(msg)
        start, end = self.array.interactive_mute(window_kwargs=window_kwargs)
        self.signal_start = start
        self.signal_end = end
'''))
E("e-wf-snr-guard", "maswworkflows.py", ('''        process = self.settings["processing"]
        if snr["perform"]:
            self.snr = SignaltoNoiseRatio.from_array1ds(
                self.signal, self.noise,
                fmin=process["fmin"], fmax=process["fmax"],
                pad_snr=snr["pad"]["apply"], df_snr=snr["pad"]["df"])
''', '''        process = self.settings["processing"]
        if not snr["perform"]:
            return
        limits = {"fmin": process["fmin"], "fmax": process["fmax"]}
        pad = snr["pad"]
        self.snr = SignaltoNoiseRatio.from_array1ds(self.signal, self.noise,
                                                    pad_snr=pad["apply"],
                                                    df_snr=pad["df"], **limits)
'''))
E("e-wf-select-helper", "maswworkflows.py", ('''        snr = self.settings["signal-to-noise"]
        if snr["perform"] and self.noise is None:
            # Copy array and trim noise.
            self.noise = Array1D.from_array1d(self.array)
            self.noise.trim(snr["noise"]["begin"], snr["noise"]["end"])
''', '''        snr = self.settings["signal-to-noise"]
        if not snr["perform"] or self.noise is not None:
            return
        self.noise = self._window(snr["noise"])

    def _window(self, window):
        """Copy of the array, trimmed to the window."""
        array = Array1D.from_array1d(self.array)
        array.trim(window["begin"], window["end"])
        return array
'''), ('''            # Copy array and trim noise.
            self.signal = Array1D.from_array1d(self.array)
            self.signal.trim(snr["signal"]["begin"], snr["signal"]["end"])
''', '''            self.signal = self._window(snr["signal"])
'''))
E("e-pk-plot-zip", "peaks.py", ('''        for _ax, _xtype, _ytype in zip(ax, xtype, ytype):
            # Plot Peaks.
            self._plot(ax=_ax, xtype=_xtype, ytype=_ytype,
                       plot_kwargs=plot_kwargs, mask=mask)
            # Configure Axes
            self._configure_axes(ax=_ax, xtype=_xtype, ytype=_ytype,
                                 defaults=self.axes_defaults)
''', '''        for i in range(ncols):
            what = dict(ax=ax[i], xtype=xtype[i], ytype=ytype[i])
            self._plot(**what, plot_kwargs=plot_kwargs, mask=mask)
            self._configure_axes(**what, defaults=self.axes_defaults)
'''))
E("e-pk-plotkw-update", "peaks.py", ('''        plot_kwargs = {} if plot_kwargs is None else plot_kwargs
        plot_kwargs = {**default_plot_kwargs, **plot_kwargs}

        # Handle presense''', '''        if plot_kwargs is not None:
            default_plot_kwargs.update(plot_kwargs)
        plot_kwargs = default_plot_kwargs

        # Handle presense'''))
E("e-pk-configure-loop", "peaks.py", ('''        # x-axis
        for key, value in defaults.get(xtype, {}).items():
            getattr(ax, f"set_x{key}")(value)

        # y-axis
        for key, value in defaults.get(ytype, {}).items():
            getattr(ax, f"set_y{key}")(value)
''', '''        for axis, name in (("x", xtype), ("y", ytype)):
            for key, value in defaults.get(name, {}).items():
                getattr(ax, f"set_{axis}{key}")(value)
'''))
E("e-pk-prepare-invert", "peaks.py", ('''            if isinstance(value, str):
                kwargs[key] = [value]
            elif isinstance(value, (list, tuple)):
                pass
            else:
                msg = f"{key} must be a str or iterable not, {type(key)}."
                raise TypeError(msg)
''', '''            if isinstance(value, str):
                kwargs[key] = [value]
                continue
            if not isinstance(value, (list, tuple)):
                msg = f"{key} must be a str or iterable not, {type(key)}."
                raise TypeError(msg)
'''))
E("e-ps-plot-guard", "peakssuite.py", ('''        # Plot the remaining Peaks from the PeaksSuite (if they exist).
        if len(self.peaks) > 1:
            for _peak, _plot_kwargs, _mask in zip(self.peaks[1:], plot_kwargs[1:], mask[1:]):
                label = _plot_kwargs.get("label", None)
                for _ax, _xtype, _ytype in zip(ax, xtype, ytype):

                    # Only label unique data sets.
                    _, labels = _ax.get_legend_handles_labels()
                    if label in labels:
                        _plot_kwargs["label"] = None

                    _peak._plot(xtype=_xtype, ytype=_ytype, ax=_ax,
                                plot_kwargs=_plot_kwargs, mask=_mask)
''', '''        # Plot the remaining Peaks from the PeaksSuite (if they exist).
        for _peak, _plot_kwargs, _mask in zip(self.peaks[1:], plot_kwargs[1:], mask[1:]):
            label = _plot_kwargs.get("label")
            for _ax, _xtype, _ytype in zip(ax, xtype, ytype):

                # Only label unique data sets.
                if label in _ax.get_legend_handles_labels()[1]:
                    _plot_kwargs["label"] = None

                _peak._plot(ax=_ax, xtype=_xtype, ytype=_ytype,
                            plot_kwargs=_plot_kwargs, mask=_mask)
'''))
E("e-ps-fromdict-comp", "peakssuite.py", ('''        peaks = []
        for _dict in dicts:
            for identifier, data in _dict.items():
                peaks.append(Peaks.from_dict(data, identifier=identifier))

        return cls.from_peaks(peaks)
''', '''        return cls.from_peaks([Peaks.from_dict(data, identifier=identifier)
                               for _dict in dicts
                               for identifier, data in _dict.items()])
'''))
E("e-ps-stats-fill", "peakssuite.py", ('''            for cid, values in enumerate(data_matrix.T):
                mean_value = np.nanmean(values)
                rbools = np.isnan(values)
                data_matrix[rbools, cid] = mean_value
''', '''            for cid in range(data_matrix.shape[1]):
                column = data_matrix[:, cid]
                column[np.isnan(column)] = np.nanmean(column)
'''))
E("e-ps-drop-helper", "peakssuite.py", ('''        # Initial
        i_nans = np.sum(np.isnan(data_matrix))
        i_nums = data_matrix.size - i_nans
''', '''        def count(matrix):
            """Number of nans, and of everything else."""
            nans = np.sum(np.isnan(matrix))
            return nans, matrix.size - nans

        # Initial
        i_nans, i_nums = count(data_matrix)
'''), ('''        r_nans = np.sum(np.isnan(data_matrix_1))
        r_nums = data_matrix_1.size - r_nans
''', '''        r_nans, r_nums = count(data_matrix_1)
'''), ('''        r_nans = np.sum(np.isnan(data_matrix_2))
        r_nums = data_matrix_2.size - r_nans
''', '''        r_nans, r_nums = count(data_matrix_2)
'''))
E("e-wt-plotsnr-early", "wavefieldtransforms.py", ('''        # Construct fig and ax (if necessary).
        ax_was_none = False
        if ax is None:
            ax_was_none = True
            fig, ax = plt.subplots(figsize=(4, 3), dpi=150)

        # Allow for user customization of plot.
        if plot_kwargs is None:
            plot_kwargs = {}

        # Plot signal-to-noise ratio.
''', '''        # Construct fig and ax (if necessary).
        ax_was_none = ax is None
        if ax_was_none:
            fig, ax = plt.subplots(figsize=(4, 3), dpi=150)

        # Allow for user customization of plot.
        plot_kwargs = plot_kwargs or {}

        # Plot signal-to-noise ratio.
'''))
E("e-wt-stack-inplace", "wavefieldtransforms.py", ('''            self.power = (self.power*self.n + other.power*other.n)
            self.power /= (self.n+other.n)
''', '''            total = self.n + other.n
            self.power = (self.power*self.n + other.power*other.n)/total
'''))
E("e-wt-ps-locals", "wavefieldtransforms.py", ('''            for col, (f_index, frq) in enumerate(zip(keep_ids, frequencies)):
                shift = np.exp(exponent*frq)
                inner = shift*fft[:, f_index]/np.abs(fft[:, f_index])
                integral = np.abs(np.sum(0.5*dx*(inner[:-1] + inner[1:])))
                power[row, col] = integral

        return (frequencies, power)
''', '''            for col, frq in enumerate(frequencies):
                spectrum = fft[:, keep_ids[col]]
                inner = np.exp(exponent*frq)*(spectrum/np.abs(spectrum))
                panels = 0.5*dx*(inner[1:] + inner[:-1])
                power[row, col] = np.abs(np.sum(panels))

        return (frequencies, power)
'''))
E("e-snr-helper", "snr.py", ('''        s_tseries = signal.timeseriesmatrix()
        snr = np.mean(np.abs(np.fft.fft(s_tseries)[:, keep_ids]), axis=0)
        n_tseries = noise.timeseriesmatrix()
        snr /= np.mean(np.abs(np.fft.fft(n_tseries)[:, keep_ids]), axis=0)

        return cls(frequencies, snr)
''', '''        def spectrum(array):
            return np.mean(np.abs(np.fft.fft(array.timeseriesmatrix())[:, keep_ids]), axis=0)

        return cls(frequencies, spectrum(signal)/spectrum(noise))
'''))
E("e-snr-lengths", "snr.py", ('''        if noise[0].nsamples != signal[0].nsamples:
''', '''        same_length = signal[0].nsamples == noise[0].nsamples
        if not same_length:
'''))
E("e-rx-spac-not", "regex.py", ('''    if component not in ["(0)", "0"]:
''', '''    if not (component == "0" or component == "(0)"):
'''))
E("e-rx-wavetypes-guard", "regex.py", ('''    if wavetype in ("rayleigh", "love", "vertical", "radial", "transverse"):
        return wavetype.capitalize()
    else:
        raise ValueError(f"wavetype={wavetype}, not recognized.")
''', '''    known = {"rayleigh", "love", "vertical", "radial", "transverse"}
    if wavetype not in known:
        raise ValueError(f"wavetype={wavetype}, not recognized.")
    return wavetype.capitalize()
'''))
E("e-rx-all-suffix", "regex.py", ('''    if wavetype is None:
        pattern = rf"(?<!\\S){time} .* 1"
    else:
        wavetype = validate_wavetypes(wavetype)
        pattern = rf"(?<!\\S){time} .* {wavetype} .* 1"
    return re.compile(pattern)
''', '''    middle = ".*" if wavetype is None else f".* {validate_wavetypes(wavetype)} .*"
    return re.compile(rf"(?<!\\S){time} {middle} 1")
'''))
E("e-reg-create", "register.py", ('''        _class = cls.create_class(name)
        return _class(*args, **kwargs)
''', '''        return cls.create_class(name)(*args, **kwargs)
'''))

# ---------------------------------------------------------------- heavier rewrites
E("f-pk-limits-mask", "peaks.py", ('''        bool_array = np.zeros_like(_attr, dtype=bool)
        if _min is None and _max is None:
            msg = "`reject_outside` called, but limits were both `None`, "
            msg += "therefore no values were rejected."
            warnings.warn(msg)
        elif _min is None:
            np.greater(_attr, _max, out=bool_array, where=self._valid)
        elif _max is None:
            np.less(_attr, _min, out=bool_array, where=self._valid)
        else:
            np.greater(_attr, _max, out=bool_array, where=self._valid)
            np.less(_attr, _min, out=bool_array,
                    where=np.logical_and(self._valid, ~bool_array))

        self._reject(bool_array)
''', '''        bool_array = np.zeros_like(_attr, dtype=bool)
        if _min is None and _max is None:
            msg = "`reject_outside` called, but limits were both `None`, "
            msg += "therefore no values were rejected."
            warnings.warn(msg)
        if _max is not None:
            bool_array |= _attr > _max
        if _min is not None:
            bool_array |= _attr < _min

        self._reject(bool_array & self._valid)
'''))
E("f-pk-box-expr", "peaks.py", ('''        bool_array = np.zeros_like(xs, dtype=bool)
        np.greater(xs, x_min, out=bool_array, where=self._valid)
        np.less(xs, x_max, out=bool_array, where=bool_array)
        np.greater(ys, y_min, out=bool_array, where=bool_array)
        np.less(ys, y_max, out=bool_array, where=bool_array)

        return bool_array
''', '''        inside_x = np.logical_and(xs > x_min, xs < x_max)
        inside_y = np.logical_and(ys > y_min, ys < y_max)
        return self._valid & inside_x & inside_y
'''))
E("f-pk-simplify-argmax", "peaks.py", ('''            mindex = 0
            mval = -np.inf
            for rindex, (rowval, valid) in enumerate(zip(colvals, valids)):
                if not valid:
                    continue
                if rowval > mval:
                    mindex = rindex
                    mval = rowval

            if mval != -np.inf:
                values.append(attr[mindex, cindex])
''', '''            best, mval = None, -np.inf
            for rindex in range(len(colvals)):
                if valids[rindex] and colvals[rindex] > mval:
                    best, mval = rindex, colvals[rindex]

            if best is not None:
                values.append(attr[best, cindex])
'''))
E("f-pk-simplify-split", "peaks.py", ('''        # If 1D, return valid.
        if getattr(self, f"_{attr}").ndim == 1:
            return getattr(self, f"{attr}")

        # If 2D and has power, return values based on maximum.
        elif hasattr(self, "_power"):
            attr = getattr(self, f"_{attr}")
            decide = self._power

        # If 2D and missing power, return first available value.
        else:
            attr = getattr(self, f"_{attr}")
            decide = self._frequency
''', '''        # If 1D, return valid.
        name = attr
        attr = getattr(self, f"_{name}")
        if attr.ndim == 1:
            return getattr(self, name)

        # If 2D use the power if there is one, otherwise the first available value.
        decide = self._power if hasattr(self, "_power") else self._frequency
'''))
E("f-pk-tojson-open", "peaks.py", ('''        if append:
            with open(fname, "r") as f:
                data_to_update = json.load(f)
            if self.identifier in data_to_update.keys():
                msg = "Data already exists in file with identifier "
                msg += f"{self.identifier}, file left unmodified."
                raise KeyError(msg)
            else:
                data_to_update[self.identifier] = data
                with open(fname, "w") as f:
                    json.dump(data_to_update, f)
        else:
            data = {self.identifier: data}
            with open(fname, "w") as f:
                json.dump(data, f)
''', '''        contents = {}
        if append:
            with open(fname, "r") as f:
                contents = json.load(f)
            if self.identifier in contents:
                msg = "Data already exists in file with identifier "
                msg += f"{self.identifier}, file left unmodified."
                raise KeyError(msg)

        contents[self.identifier] = data
        with open(fname, "w") as f:
            json.dump(contents, f)
'''))
E("f-pk-parse-helper", "peaks.py", ('''        frqs = np.full((nmaxima, nfrequencies), fill_value=np.nan, dtype=float)
        vels = np.full_like(frqs, fill_value=np.nan, dtype=float)
        azis = np.full_like(frqs, fill_value=np.nan, dtype=float)
        ells = np.full_like(frqs, fill_value=np.nan, dtype=float)
        nois = np.full_like(frqs, fill_value=np.nan, dtype=float)
        pwrs = np.full_like(frqs, fill_value=np.nan, dtype=float)
''', '''        def empty():
            return np.full((nmaxima, nfrequencies), np.nan)

        frqs, vels, azis, ells, nois, pwrs = (empty() for _ in range(6))
'''))
E("f-pk-parse-frqs", "peaks.py", ('''            frequencies = []
            for match in regex.finditer(peak_data):
                _, f, *_ = match.groups()
                if f in frequencies:
                    continue
                else:
                    frequencies.append(f)
        nfrequencies = len(frequencies)
''', '''            frequencies = []
            for match in regex.finditer(peak_data):
                frequency = match.group(2)
                if frequency not in frequencies:
                    frequencies.append(frequency)
        nfrequencies = len(frequencies)
'''))
E("f-pk-parse-clip", "peaks.py", ('''            nmaxima = int(regex.search(peak_data).groups()[0])
            nmaxima = max(1, nmaxima)
            nmaxima = min(100, nmaxima)
''', '''            nmaxima = min(max(int(regex.search(peak_data).group(1)), 1), 100)
'''))
E("f-pk-parse-type", "peaks.py", ('''        process_type = regex.search(peak_data).groups()[0]
        if process_type.lower() == "rtbf" and wavetype_from_file == "Vertical":
            process_type = "capon"
        else:
            process_type = process_type.lower()
''', '''        process_type = regex.search(peak_data).groups()[0].lower()
        vertical = wavetype_from_file == "Vertical"
        if vertical and process_type == "rtbf":
            process_type = "capon"
'''))
E("f-pk-eq-helper", "peaks.py", ('''            try:
                myattr = getattr(self, attr)
                urattr = getattr(other, attr)
            except AttributeError:
                return False
            else:
                try:
                    if np.shape(myattr) != np.shape(urattr):
                        return False
                    if not np.allclose(myattr, urattr, equal_nan=True):
                        return False
                except ValueError:
                    return False

        return True
''', '''            try:
                myattr, urattr = getattr(self, attr), getattr(other, attr)
            except AttributeError:
                return False
            try:
                same = np.shape(myattr) == np.shape(urattr) and np.allclose(myattr, urattr, equal_nan=True)
            except ValueError:
                same = False
            if not same:
                return False

        return True
'''))
E("f-pk-init-kw", "peaks.py", ('''        self.attrs = ["frequency", "velocity"] + list(kwargs.keys())
''', '''        self.attrs = ["frequency", "velocity", *kwargs]
'''))
E("f-ps-res-factor", "peakssuite.py", ('''            if attribute == "wavelength":
                if ytype == "velocity":
                    x1, x2 = [np.ones_like(ys)*limit for limit in limits]
                elif ytype == "slowness":
                    x1, x2 = [np.ones_like(ys)*limit for limit in limits]
                else:
                    raise NotImplementedError
            elif attribute == "wavenumber":
                if ytype == "velocity":
                    x1, x2 = [np.ones_like(ys)*2*np.pi /
                              limit for limit in limits]
                elif ytype == "slowness":
                    x1, x2 = [np.ones_like(ys)*2*np.pi /
                              limit for limit in limits]
                else:
                    raise NotImplementedError
            else:
                raise NotImplementedError
''', '''            if ytype not in ("velocity", "slowness"):
                raise NotImplementedError
            if attribute == "wavelength":
                wavelengths = limits
            elif attribute == "wavenumber":
                wavelengths = [2*np.pi/limit for limit in limits]
            else:
                raise NotImplementedError
            x1, x2 = [np.full_like(ys, wavelength) for wavelength in wavelengths]
'''))
E("f-ps-res-plot", "peakssuite.py", ('''        try:
            limits = PeaksSuite.calc_resolution_limits(xtype, attribute,
                                                       ytype, limits, xs, ys)
        except NotImplementedError:
            warnings.warn("Could not calculate resolution limits.")
        else:
            plot_kwargs = {} if plot_kwargs is None else plot_kwargs
            default_kwargs = dict(color="#000000", linestyle="--",
                                  linewidth=0.75, label="limit")
            plot_kwargs = {**default_kwargs, **plot_kwargs}

            for limit_pair in limits:
                ax.plot(*limit_pair, **plot_kwargs)
                plot_kwargs["label"] = None
''', '''        try:
            lower, upper = PeaksSuite.calc_resolution_limits(xtype, attribute,
                                                             ytype, limits, xs, ys)
        except NotImplementedError:
            warnings.warn("Could not calculate resolution limits.")
            return

        kwargs = dict(color="#000000", linestyle="--",
                      linewidth=0.75, label="limit")
        if plot_kwargs is not None:
            kwargs.update(plot_kwargs)

        ax.plot(*lower, **kwargs)
        ax.plot(*upper, **{**kwargs, "label": None})
'''))
E("f-ps-kwargs-helper", "peakssuite.py", ('''        expanded_kwargs = []
        for index in range(ncols):
            new_dict = {}
            for key, value in plot_kwargs.items():
                if isinstance(value, str) or value is None:
                    new_dict[key] = value
                elif isinstance(value, (list, tuple)):
                    new_dict[key] = value[index]
                else:
                    msg = f"kwarg must be a `str` or `iterable` not {type(value)}."
                    raise NotImplementedError(msg)
            expanded_kwargs.append(new_dict)
        return expanded_kwargs
''', '''        def pick(value, index):
            if value is None or isinstance(value, str):
                return value
            if isinstance(value, (list, tuple)):
                return value[index]
            msg = f"kwarg must be a `str` or `iterable` not {type(value)}."
            raise NotImplementedError(msg)

        return [{key: pick(value, index) for key, value in plot_kwargs.items()}
                for index in range(ncols)]
'''))
E("f-ps-toarray-try", "peakssuite.py", ('''            if np.sum(np.isnan(x)) + np.sum(np.isnan(y)):
                raise ValueError("NaN in x and or y!")
            try:
                interpfxn = interp1d(x, y,
                                     copy=True, bounds_error=False,
                                     fill_value=np.nan)
            except ValueError:
                array[row, :] = np.nan
            else:
                array[row, :] = interpfxn(xx)
''', '''            if np.any(np.isnan(x)) or np.any(np.isnan(y)):
                raise ValueError("NaN in x and or y!")
            try:
                interpfxn = interp1d(x, y, bounds_error=False,
                                     fill_value=np.nan)
            except ValueError:
                array[row] = np.nan
                continue
            array[row] = interpfxn(xx)
'''))
E("f-ps-tojson-enum", "peakssuite.py", ('''        append = False
        for peak in self.peaks:
            peak.to_json(fname, append=append)
            append = True
''', '''        for number, peak in enumerate(self.peaks):
            peak.to_json(fname, append=number > 0)
'''))
E("f-ps-frommax-set", "peakssuite.py", ('''            found_times = []
            for found in regex.finditer(peak_data):
                start_time = found.groups()[0]
                if start_time in found_times:
                    continue
                found_times.append(start_time)
                peak = Peaks._parse_peaks(peak_data,
                                          wavetype=file_wavetype,
                                          start_time=start_time,
                                          frequencies=frequencies,
                                          nmaxima=nmaxima)
                peaks.append(peak)
''', '''            found_times = []
            for found in regex.finditer(peak_data):
                start_time = found.group(1)
                if start_time not in found_times:
                    found_times.append(start_time)

            for start_time in found_times:
                peaks.append(Peaks._parse_peaks(peak_data,
                                                wavetype=file_wavetype,
                                                start_time=start_time,
                                                frequencies=frequencies,
                                                nmaxima=nmaxima))
'''))
E("f-ps-frommax-one", "peakssuite.py", ('''            regex = get_peak_from_max(wavetype=file_wavetype)
            found_times = []
            for found in regex.finditer(peak_data):
''', '''            found_times = []
            for found in regex.finditer(peak_data):
'''))
E("f-ps-eq-all", "peakssuite.py", ('''        for mypeaks, urpeaks in zip(self.peaks, other.peaks):
            if mypeaks != urpeaks:
                return False

        return True
''', '''        return all(mine == yours for mine, yours in zip(self.peaks, other.peaks))
'''))
E("f-wf-fd-example", "maswworkflows.py", ('''        Transform = WavefieldTransformRegistry.create_class("empty")
        proc = self.settings["processing"]
        running_stack = Transform.from_array(array=example_array,
                                             settings=proc)
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
''', '''        proc = self.settings["processing"]
        Empty = WavefieldTransformRegistry.create_class("empty")
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
        running_stack = Empty.from_array(array=example_array, settings=proc)
'''))
E("f-wf-fd-snr", "maswworkflows.py", ('''            transform = Transform.from_array(array=self.array,
                                             settings=proc)
            running_stack.stack(transform)
        running_stack.array = self.array
        if self.settings["signal-to-noise"]["perform"]:
            self.calculate_snr()
            running_stack.snr = self.snr.snr
            running_stack.snr_frequencies = self.snr.frequencies
        return running_stack
''', '''            running_stack.stack(Transform.from_array(array=self.array,
                                                     settings=proc))
        running_stack.array = self.array
        self.calculate_snr()
        if self.snr is not None:
            running_stack.snr = self.snr.snr
            running_stack.snr_frequencies = self.snr.frequencies
        return running_stack
'''))
E("f-wf-finish-helper", "maswworkflows.py", ('''class TimeDomainWorkflow(AbstractMaswWorkflow):
''', '''class TimeDomainWorkflow(AbstractMaswWorkflow):

    def _transform(self):
        """Transform of the array, with its array and signal-to-noise."""
        proc = self.settings["processing"]
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
        transform = Transform.from_array(array=self.array, settings=proc)
        transform.array = self.array
        if not self.settings["signal-to-noise"]["perform"]:
            return transform
        transform.snr = self.snr.snr
        transform.snr_frequencies = self.snr.frequencies
        return transform
'''), ('''        self.calculate_snr()
        self.pad()
        proc = self.settings["processing"]
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
        transform = Transform.from_array(array=self.array, settings=proc)
        transform.array = self.array
        if self.settings["signal-to-noise"]["perform"]:
            transform.snr = self.snr.snr
            transform.snr_frequencies = self.snr.frequencies
        return transform
''', '''        self.calculate_snr()
        self.pad()
        return self._transform()
'''))
E("f-s1c-coords-helper", "sensor1c.py", ('''    @classmethod
    def _from_trace_su(''', '''    @staticmethod
    def _scaled(value, scaleco):
        """Coordinate in meters."""
        scaled = value / abs(scaleco) if scaleco < 0 else value * scaleco
        return round(scaled, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

    @classmethod
    def _from_trace_su('''), ('''        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

        return cls.from_trace(trace,
                              read_header=False,
                              format="SU",
''', '''        x = cls._scaled(cls._safely_get_header(header, "group_coordinate_x", 0, int), scaleco)
        y = cls._scaled(cls._safely_get_header(header, "group_coordinate_y", 0, int), scaleco)

        return cls.from_trace(trace,
                              read_header=False,
                              format="SU",
'''))
E("f-s1c-dispatch", "sensor1c.py", ('''        if read_header:
            if _format == "SEG2":
                return cls._from_trace_seg2(trace, map_x=map_x, map_y=map_y)
            elif _format == "SU":
                return cls._from_trace_su(trace, map_x=map_x, map_y=map_y)
            elif _format == "SEGY":
                return cls._from_trace_segy(trace, map_x=map_x, map_y=map_y)
            else:
                raise NotImplementedError
        else:
            return cls(amplitude=trace.data, dt=trace.stats.delta,
                       x=x, y=y, z=z, nstacks=nstacks, delay=delay)
''', '''        if not read_header:
            return cls(amplitude=trace.data, dt=trace.stats.delta,
                       x=x, y=y, z=z, nstacks=nstacks, delay=delay)

        readers = {"SEG2": cls._from_trace_seg2,
                   "SU": cls._from_trace_su,
                   "SEGY": cls._from_trace_segy}
        if _format not in readers:
            raise NotImplementedError
        return readers[_format](trace, map_x=map_x, map_y=map_y)
'''))
E("f-s1c-similar-all", "sensor1c.py", ('''        for attr in ["x", "y", "z"]:
            if attr in exclude:
                continue
            if getattr(self, attr) != getattr(other, attr):
                return False

        if not super()._is_similar(other, exclude=exclude):
            return False

        return True
''', '''        for attr in ("x", "y", "z"):
            if attr not in exclude and getattr(self, attr) != getattr(other, attr):
                return False

        return super()._is_similar(other, exclude=exclude)
'''))
E("f-ats-shift-zeros", "activetimeseries.py", ('''        if shifts > 0:
            return (shifts, np.concatenate((np.zeros(shifts), b.amplitude[:-shifts])))
        elif shifts < 0:
            return (shifts, np.concatenate((b.amplitude[abs(shifts):], np.zeros(abs(shifts)))))
        else:
            return (shifts, np.array(b.amplitude))
''', '''        zeros = np.zeros(abs(shifts))
        if shifts == 0:
            shifted = np.array(b.amplitude)
        elif shifts > 0:
            shifted = np.concatenate((zeros, b.amplitude[:-shifts]))
        else:
            shifted = np.concatenate((b.amplitude[-shifts:], zeros))
        return (shifts, shifted)
'''))
E("f-ats-pad-early", "activetimeseries.py", ('''        # If new_nsamples > nsamples, pad zeros.
        if new_nsamples > self.nsamples:
            padding = new_nsamples - self.nsamples
        # If new_nsamples < nsamples, pad zeros to achieve a multiple
        # of new_nsamples (i.e.,  a fraction of df). After processing,
        # extract the results at the frequencies of interest.
        elif new_nsamples < self.nsamples:
            # If df_old is already an integer of df_new
            if self.nsamples % new_nsamples == 0:
                self._multiple = int(self.nsamples/new_nsamples)
                return
            # If df_old is not already an integer of df_new, pad existing series.
            else:
                padding = new_nsamples - (self.nsamples % new_nsamples)
                self._multiple = int((self.nsamples + padding) / new_nsamples)
        # If new_samples == nsamples, do nothing.
        else:
            return

        self._amp = np.concatenate((self._amp, np.zeros((1, padding))), axis=1)
''', '''        nsamples = self.nsamples

        # If new_samples == nsamples, do nothing.
        if new_nsamples == nsamples:
            return

        if new_nsamples > nsamples:
            padding = new_nsamples - nsamples
        else:
            # Pad zeros to achieve a multiple of new_nsamples (i.e., a
            # fraction of df). After processing, extract the results at
            # the frequencies of interest.
            remainder = nsamples % new_nsamples
            padding = new_nsamples - remainder if remainder else 0
            self._multiple = (nsamples + padding) // new_nsamples

        if padding:
            self._amp = np.concatenate((self._amp, np.zeros((1, padding))), axis=1)
'''))
E("f-ats-stack-weights", "activetimeseries.py", ('''        self._amp = (self._amp*self.nstacks +
                     timeseries._amp*timeseries.nstacks)
        self._amp /= (self.nstacks + timeseries.nstacks)
        self._nstacks += timeseries.nstacks
''', '''        total = self.nstacks + timeseries.nstacks
        weighted = self._amp*self.nstacks + timeseries._amp*timeseries.nstacks
        self._amp = weighted/total
        self._nstacks = total
'''))
E("f-inv-matmul", "inversion.py", ('''    a = np.matmul(covp0p0, dgdp.T)
    b = np.linalg.inv(covd0d0 + np.matmul(np.matmul(dgdp, covp0p0), dgdp.T))
    c = d0 - dm + np.matmul(dgdp, (pm-p0))
    return p0 + np.matmul(np.matmul(a, b), c)
''', '''    cross = covp0p0 @ dgdp.T
    weight = np.linalg.inv(covd0d0 + dgdp @ cross)
    misfit = d0 - dm + dgdp @ (pm - p0)
    return p0 + cross @ weight @ misfit
'''))

# ---------------------------------------------------------------- transforms, extraction, sources
E("g-wt-vector-if", "wavefieldtransforms.py", ('''        samplers = {"linear": np.linspace, "lin": np.linspace,
                    "log": np.geomspace, "logarithmic": np.geomspace}
        sampler = samplers[pspace]
        return sampler(pmin, pmax, pn)
''', '''        if pspace in ("linear", "lin"):
            return np.linspace(pmin, pmax, pn)
        if pspace in ("log", "logarithmic"):
            return np.geomspace(pmin, pmax, pn)
        raise KeyError(pspace)
'''))
E("g-wt-keep-helper", "wavefieldtransforms.py", ('''        fmin_ids = np.argmin(np.abs(frequencies-fmin))
        fmax_ids = np.argmin(np.abs(frequencies-fmax))
        keep_ids = range(fmin_ids, (fmax_ids+1), multiple)
        return keep_ids
''', '''        def nearest(frequency):
            return np.abs(frequencies - frequency).argmin()

        return range(nearest(fmin), nearest(fmax) + 1, multiple)
'''))
E("g-wt-normalize-if", "wavefieldtransforms.py", ('''        register = {"none": (np.abs,
                             lambda x: 1.),
                    "absolute-maximum": (lambda x: np.abs(x)/np.max(np.abs(x)),
                                         lambda x: np.max(np.abs(x))),
                    "frequency-maximum": (lambda x: np.abs(x)/np.max(np.abs(x), axis=0),
                                          lambda x: np.max(np.abs(x), axis=0))
                    }
        to_norm, to_abs = register[by]

        # Return power to unnormalized state.
        self.power *= self._to_abs

        # Normalize power
        self.power, self._to_abs = (to_norm(self.power), to_abs(self.power))
''', '''        scales = {"none": lambda power: 1.,
                  "absolute-maximum": lambda power: np.max(power),
                  "frequency-maximum": lambda power: np.max(power, axis=0)}
        scale = scales[by]

        # Return power to unnormalized state.
        self.power *= self._to_abs

        # Normalize power
        power = np.abs(self.power)
        self._to_abs = scale(power)
        self.power = power/self._to_abs
'''))
E("g-wt-peak-guard", "wavefieldtransforms.py", ('''        if by == "frequency-maximum":
            return self.velocities[np.argmax(np.abs(self.power), axis=0)]
        else:
            msg = f"find_peak_power by {by} not recognized, see docs for options."
            raise NotImplementedError(msg)
''', '''        if by != "frequency-maximum":
            msg = f"find_peak_power by {by} not recognized, see docs for options."
            raise NotImplementedError(msg)
        indices = np.abs(self.power).argmax(axis=0)
        return self.velocities[indices]
'''))
E("g-wt-plot-merge", "wavefieldtransforms.py", ('''        default_colorbar_kwargs = dict(
            **ax_kwargs, ticks=np.round(np.linspace(0, np.max(self.power), 6), 1))
        if colorbar_kwargs is None:
            colorbar_kwargs = default_colorbar_kwargs
        else:
            colorbar_kwargs = {**default_colorbar_kwargs, **colorbar_kwargs}

        fig.colorbar(img, **colorbar_kwargs)
''', '''        ticks = np.round(np.linspace(0, np.max(self.power), 6), 1)
        fig.colorbar(img, **{**ax_kwargs, "ticks": ticks, **(colorbar_kwargs or {})})
'''), ('''        if cax is None:
            ax_kwargs = dict(ax=ax, pad=0.01)
        else:
            ax_kwargs = dict(cax=cax)
''', '''        ax_kwargs = dict(ax=ax, pad=0.01) if cax is None else dict(cax=cax)
'''))
E("g-wt-plot-near", "wavefieldtransforms.py", ('''            fs = np.linspace(fmin, fmax, 30)
            wv = self.array.array_center_distance / nearfield
            vs = fs*wv
            ax.plot(fs, vs, color="black", linestyle="-.",
''', '''            fs = np.linspace(fmin, fmax, num=30)
            wavelength = self.array.array_center_distance / nearfield
            ax.plot(fs, wavelength*fs, color="black", linestyle="-.",
'''))
E("g-wt-slant-broadcast", "wavefieldtransforms.py", ('''        diff = position[1:] - position[:-1]
        diff = diff.reshape((len(diff), 1))
''', '''        diff = np.diff(position).reshape(-1, 1)
'''))
E("g-wt-slant-cols", "wavefieldtransforms.py", ('''        pre_float_indices = position.reshape(nchannels, 1)/dt
        previous_lower_indices = np.zeros((nchannels, 1), dtype=int)
        for i, velocity in enumerate(velocities):
            float_indices = pre_float_indices/velocity
            lower_indices = np.array(float_indices, dtype=int)
            delta = float_indices - lower_indices
            cols += lower_indices - previous_lower_indices
            amplitudes = tmatrix[rows, cols] * \\
                (1-delta) + tmatrix[rows, cols+1]*delta
''', '''        pre_float_indices = position.reshape(nchannels, 1)/dt
        for i, velocity in enumerate(velocities):
            float_indices = pre_float_indices/velocity
            lower_indices = np.array(float_indices, dtype=int)
            delta = float_indices - lower_indices
            shifted = cols + lower_indices
            amplitudes = tmatrix[rows, shifted] * \\
                (1-delta) + tmatrix[rows, shifted+1]*delta
'''), ('''            slant_stack[i, :] = summation

            previous_lower_indices[:] = lower_indices
''', '''            slant_stack[i, :] = summation
'''))
E("g-wt-slant-trapz", "wavefieldtransforms.py", ('''            integral = 0.5*diff*(amplitudes[1:, :] + amplitudes[:-1, :])
            summation = np.sum(integral, axis=0)
            slant_stack[i, :] = summation
''', '''            mean_amplitudes = (amplitudes[1:] + amplitudes[:-1])/2
            slant_stack[i] = np.sum(mean_amplitudes*diff, axis=0)
'''))
E("g-wt-ss-order", "wavefieldtransforms.py", ('''        nsamples = array[0].nsamples
        slant_stack = cls.slant_stack(array, velocities)

        # Frequency vector
        sensor = array[0]
        frequencies = np.arange(nsamples) * sensor._df

        # Fourier Transform of the slant-stack
        power = np.fft.fft(slant_stack, n=nsamples)
''', '''        sensor = array[0]
        nsamples = sensor.nsamples

        # Frequency vector
        frequencies = sensor._df * np.arange(nsamples)

        # Fourier Transform of the slant-stack
        power = np.fft.fft(cls.slant_stack(array, velocities), nsamples)
'''))
E("g-wt-fdbf-steer", "wavefieldtransforms.py", ('''        if steering == "cylindrical":
            def create_steering(kx):
                return np.exp(-1j * np.angle(special.j0(kx) + 1j*special.y0(kx)))
        else:
            def create_steering(kx):
                return np.exp(-1j * kx)
''', '''        def create_steering(kx):
            phase = kx
            if steering == "cylindrical":
                phase = np.angle(special.j0(kx) + 1j*special.y0(kx))
            return np.exp(-1j * phase)
'''))
E("g-wt-fdbf-matmul", "wavefieldtransforms.py", ('''            for j, v in enumerate(velocities):
                kx[:] = 2*np.pi*f/v * offsets[:]
                steer[:, 0] = create_steering(kx)[:]
                _power = np.dot(np.dot(np.transpose(np.conjugate(steer)),
                                       weighted_sscm), steer)
                power[j, i] = _power
''', '''            for j, v in enumerate(velocities):
                wavenumber = 2*np.pi*f/v
                kx[:] = wavenumber * offsets
                steer[:, 0] = create_steering(kx)
                steer_h = steer.conj().T
                power[j, i] = np.dot(np.dot(steer_h, weighted_sscm), steer)
'''))
E("g-wt-fdbf-weight", "wavefieldtransforms.py", ('''        if weighting == "sqrt":
            offsets_n = offsets.reshape(array.nchannels, 1)
            offsets_h = np.transpose(np.conjugate(offsets_n))
            w = np.dot(offsets_n, offsets_h)
        else:
            w = np.ones((array.nchannels, array.nchannels))
''', '''        nchannels = array.nchannels
        if weighting != "sqrt":
            w = np.ones((nchannels, nchannels))
        else:
            offsets_n = offsets.reshape(nchannels, 1)
            w = np.dot(offsets_n, np.conjugate(offsets_n).T)
'''))
E("g-wt-sscm-outer", "wavefieldtransforms.py", ('''                tslice[:, 0] = transform[:, i, j]
                tslice_h[0, :] = np.conjugate(tslice)[:, 0]
                scm += np.dot(tslice, tslice_h)
            scm /= nblocks
            spatiospectral[:, :, i] = scm[:]
''', '''                tslice[:, 0] = transform[:, i, j]
                tslice_h[0, :] = np.conjugate(transform[:, i, j])
                scm += np.dot(tslice, tslice_h)
            spatiospectral[:, :, i] = scm/nblocks
'''))
E("g-ut-time-helper", "utils.py", ('''        starttime = datetime.datetime(year=series["start year"],
                                      month=series["start month"],
                                      day=series["start date"],
                                      hour=series["start hour"],
                                      tzinfo=datetime.timezone.utc)
''', '''        def to_hour(which):
            return datetime.datetime(series[f"{which} year"], series[f"{which} month"],
                                     series[f"{which} date"], series[f"{which} hour"],
                                     tzinfo=datetime.timezone.utc)

        starttime = to_hour("start")
'''), ('''        endtime = datetime.datetime(year=series["end year"],
                                    month=series["end month"],
                                    day=series["end date"],
                                    hour=series["end hour"],
                                    tzinfo=datetime.timezone.utc)
''', '''        endtime = to_hour("end")
'''))
E("g-ut-station-name", "utils.py", ('''            fname = f"{network}.STN{str(series['station number']).zfill(2)}_{currenttime.year}{str(currenttime.month).zfill(2)}{str(currenttime.day).zfill(2)}_{str(currenttime.hour).zfill(2)}0000.{extension}"
''', '''            station = str(series['station number']).zfill(2)
            day = f"{currenttime.year}{str(currenttime.month).zfill(2)}{str(currenttime.day).zfill(2)}"
            hour = f"{str(currenttime.hour).zfill(2)}0000"
            fname = f"{network}.STN{station}_{day}_{hour}.{extension}"
'''))
E("g-ut-append-none", "utils.py", ('''        append = False
        dt = datetime.timedelta(hours=1)
''', '''        dt = datetime.timedelta(hours=1)
'''), ('''            if append:
                reads += obspy.read(str(data_dir / fname))
            else:
                reads = obspy.read(str(data_dir / fname))
                append = True
''', '''            read = obspy.read(str(data_dir / fname))
            if reads is None:
                reads = read
            else:
                reads += read
'''))
E("g-ut-folder", "utils.py", ('''        if not os.path.isdir(f"{output_dir / folder}"):
            logger.info(f"Creating folder: {output_dir / folder}")
            os.mkdir(f"{output_dir / folder}")
''', '''        folder_out = output_dir / folder
        if not folder_out.is_dir():
            logger.info(f"Creating folder: {folder_out}")
            folder_out.mkdir()
'''))
E("g-ut-unmask", "utils.py", ('''            if isinstance(tr.data, np.ma.masked_array):
                tr.data = tr.data.filled()
                msg = ''', '''            if not isinstance(tr.data, np.ma.masked_array):
                continue
            else:
                tr.data = tr.data.filled()
                msg = '''))
E("g-src-eq-all", "source.py", ('''        for attr in ["x", "y", "z"]:
            if getattr(self, attr) != getattr(other, attr):
                return False
        return True
''', '''        return (self.x, self.y, self.z) == (other.x, other.y, other.z)
'''))
E("g-src-from-kw", "source.py", ('''        args = [getattr(other, attr) for attr in ["x", "y", "z"]]
        return cls(*args)
''', '''        return cls(x=other.x, y=other.y, z=other.z)
'''))
E("g-meta-not", "meta.py", ('''    if version not in SUPPORTED_GEOPSY_VERSIONS:
        msg = f"geopsy version {version} is not supported; "
        msg += f"use {SUPPORTED_GEOPSY_VERSIONS} instead."
        raise ValueError(msg)
''', '''    if version in SUPPORTED_GEOPSY_VERSIONS:
        return
    raise ValueError(f"geopsy version {version} is not supported; use {SUPPORTED_GEOPSY_VERSIONS} instead.")
'''))

# ---------------------------------------------------------------- one more batch: readers, limits, figures
E("h-s-from-sensor-plain", "sensor1c.py", ('''        arg_map = {"amplitude": lambda x: x, "dt": lambda x: x,
                   "x": float, "y": float, "z": float}
        args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]

        obj = cls(*args, nstacks=int(sensor1c.nstacks))
''', '''        obj = cls(sensor1c.amplitude, sensor1c.dt,
                  x=float(sensor1c.x), y=float(sensor1c.y), z=float(sensor1c.z),
                  nstacks=int(sensor1c.nstacks))
'''))
E("h-s-from-sensor-loop", "sensor1c.py", ('''        args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]

        obj = cls(*args, nstacks=int(sensor1c.nstacks))
''', '''        kwargs = {}
        for name, convert in arg_map.items():
            kwargs[name] = convert(getattr(sensor1c, name))
        kwargs["nstacks"] = int(sensor1c.nstacks)

        obj = cls(**kwargs)
'''))
E("h-s-common", "sensor1c.py", ('''        obj = cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
                  nstacks=activetimeseries.nstacks)
        # Records trimmed to start after the trigger have a positive delay.
        obj._delay = activetimeseries.delay
        obj._multiple = activetimeseries.multiple
        return obj
''', '''        sensor = cls(amplitude=activetimeseries.amplitude,
                     dt=activetimeseries.dt, x=x, y=y, z=z,
                     nstacks=activetimeseries.nstacks)
        for attr in ("delay", "multiple"):
            setattr(sensor, f"_{attr}", getattr(activetimeseries, attr))
        return sensor
'''))
E("h-s-trace-early", "sensor1c.py", ('''        if read_header:
            if _format == "SEG2":
                return cls._from_trace_seg2(trace, map_x=map_x, map_y=map_y)
            elif _format == "SU":
                return cls._from_trace_su(trace, map_x=map_x, map_y=map_y)
            elif _format == "SEGY":
                return cls._from_trace_segy(trace, map_x=map_x, map_y=map_y)
            else:
                raise NotImplementedError
        else:
            return cls(amplitude=trace.data, dt=trace.stats.delta,
                       x=x, y=y, z=z, nstacks=nstacks, delay=delay)
''', '''        if not read_header:
            return cls(trace.data, trace.stats.delta, x=x, y=y, z=z,
                       nstacks=nstacks, delay=delay)

        readers = {"SEG2": cls._from_trace_seg2,
                   "SU": cls._from_trace_su,
                   "SEGY": cls._from_trace_segy}
        if _format not in readers:
            raise NotImplementedError
        return readers[_format](trace, map_x=map_x, map_y=map_y)
'''))
E("h-s-header-try", "sensor1c.py", ('''        try:
            value = conversion_function(getattr(header, name_to_get))
        except:
            msg = f"Failed to get {name_to_get}, set to {default_value}."
            warnings.warn(msg)
            value = default_value
        return value
''', '''        try:
            return conversion_function(getattr(header, name_to_get))
        except:
            warnings.warn(f"Failed to get {name_to_get}, set to {default_value}.")
            return default_value
'''))
E("h-s-su-segy-shared", "sensor1c.py", ('''        header = trace.stats.segy.trace_header

        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
        if nstacks == 0:
            msg = "Resetting nstacks from zero to one."
            warnings.warn(msg)
            nstacks = 1

        scaleco = cls._safely_get_header(header, "scalar_to_be_applied_to_all_coordinates", 1, int)
        if scaleco == 0:
            msg = "Resetting scale to be applied to all coordinates from zero to one."
            warnings.warn(msg)
            scaleco = 1

        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

        return cls.from_trace(trace,
                              read_header=False,
                              format="SEGY",
                              nstacks=nstacks,
                              delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
                              x=map_x(x),
                              y=map_y(y),
                              z=0)
''', '''        return cls._from_trace_header(trace, trace.stats.segy.trace_header,
                                      "SEGY", map_x, map_y)

    @classmethod
    def _from_trace_header(cls, trace, header, fmt, map_x, map_y):
        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
        if nstacks == 0:
            warnings.warn("Resetting nstacks from zero to one.")
            nstacks = 1

        scaleco = cls._safely_get_header(header, "scalar_to_be_applied_to_all_coordinates", 1, int)
        if scaleco == 0:
            warnings.warn("Resetting scale to be applied to all coordinates from zero to one.")
            scaleco = 1

        def scaled(key):
            value = cls._safely_get_header(header, key, 0, int)
            value = value / abs(scaleco) if scaleco < 0 else value * scaleco
            return round(value, -np.sign(scaleco) * int(np.log10(abs(scaleco))))

        x = scaled("group_coordinate_x")
        y = scaled("group_coordinate_y")
        delay = cls._safely_get_header(header, "delay_recording_time", 0, int)/1000
        return cls.from_trace(trace, read_header=False, format=fmt,
                              nstacks=nstacks, delay=delay,
                              x=map_x(x), y=map_y(y), z=0)
'''))
E("h-s-similar-any", "sensor1c.py", ('''        for attr in ["x", "y", "z"]:
            if attr in exclude:
                continue
            if getattr(self, attr) != getattr(other, attr):
                return False

        if not super()._is_similar(other, exclude=exclude):
            return False

        return True
''', '''        checked = [attr for attr in ("x", "y", "z") if attr not in exclude]
        if any(getattr(self, attr) != getattr(other, attr) for attr in checked):
            return False

        return super()._is_similar(other, exclude=exclude)
'''))
E("h-s-eq-return", "sensor1c.py", ('''        if not super().__eq__(other):
            return False

        return True
''', '''        return bool(super().__eq__(other))
'''))
E("h-ps-limits-return", "peakssuite.py", ('''        except NotImplementedError:
            warnings.warn("Could not calculate resolution limits.")
        else:
            plot_kwargs = {} if plot_kwargs is None else plot_kwargs
            default_kwargs = dict(color="#000000", linestyle="--",
                                  linewidth=0.75, label="limit")
            plot_kwargs = {**default_kwargs, **plot_kwargs}

            for limit_pair in limits:
                ax.plot(*limit_pair, **plot_kwargs)
                plot_kwargs["label"] = None
''', '''        except NotImplementedError:
            warnings.warn("Could not calculate resolution limits.")
            return

        style = {"color": "#000000", "linestyle": "--", "linewidth": 0.75,
                 "label": "limit"}
        if plot_kwargs is not None:
            style.update(plot_kwargs)

        for x, y in limits:
            ax.plot(x, y, **style)
            style["label"] = None
'''))
E("h-ps-plot-mask", "peakssuite.py", ('''        if mask is None:
            mask = [None]*len(self)
        else:
            if len(mask) != len(self):
                msg = f"len(mask)={len(mask)} must equal "
                msg += f"len(self)={len(self)}."
                raise IndexError(msg)
''', '''        if mask is None:
            mask = [None for _ in self.peaks]
        elif len(mask) != len(self):
            raise IndexError(f"len(mask)={len(mask)} must equal len(self)={len(self)}.")
'''))
E("h-ps-plot-noif", "peakssuite.py", ('''        if len(self.peaks) > 1:
            for _peak, _plot_kwargs, _mask in zip(self.peaks[1:], plot_kwargs[1:], mask[1:]):
                label = _plot_kwargs.get("label", None)
                for _ax, _xtype, _ytype in zip(ax, xtype, ytype):

                    # Only label unique data sets.
                    _, labels = _ax.get_legend_handles_labels()
                    if label in labels:
                        _plot_kwargs["label"] = None

                    _peak._plot(xtype=_xtype, ytype=_ytype, ax=_ax,
                                plot_kwargs=_plot_kwargs, mask=_mask)
''', '''        for _peak, _plot_kwargs, _mask in zip(self.peaks[1:], plot_kwargs[1:], mask[1:]):
            label = _plot_kwargs.get("label")
            for _ax, _xtype, _ytype in zip(ax, xtype, ytype):

                # Only label unique data sets.
                labels = _ax.get_legend_handles_labels()[1]
                if label in labels:
                    _plot_kwargs["label"] = None

                _peak._plot(ax=_ax, xtype=_xtype, ytype=_ytype,
                            plot_kwargs=_plot_kwargs, mask=_mask)
'''))
E("h-ps-plot-axes-helper", "peakssuite.py", ('''            if not isinstance(ax, (list, tuple, np.ndarray)):
                ax = [ax]
            if len(ax) != len(xtype):
                msg = f"len(ax)={len(ax)} must equal len(xtype)={len(xtype)}."
                raise IndexError(msg)

            for _ax, _xtype, _ytype in zip(ax, xtype, ytype):
''', '''            ax = PeaksSuite._listed_axes(ax, len(xtype))
            for _ax, _xtype, _ytype in zip(ax, xtype, ytype):
'''), ('''    @staticmethod
    def _prepare_plot_kwargs(plot_kwargs, ncols):
''', '''    @staticmethod
    def _listed_axes(ax, needed):
        """Axes as a list of the length needed."""
        axes = ax if isinstance(ax, (list, tuple, np.ndarray)) else [ax]
        if len(axes) != needed:
            msg = f"len(ax)={len(axes)} must equal len(xtype)={needed}."
            raise IndexError(msg)
        return axes

    @staticmethod
    def _prepare_plot_kwargs(plot_kwargs, ncols):
'''))
E("h-ps-kwargs-swap", "peakssuite.py", ('''        expanded_kwargs = []
        for index in range(ncols):
            new_dict = {}
            for key, value in plot_kwargs.items():
                if isinstance(value, str) or value is None:
                    new_dict[key] = value
                elif isinstance(value, (list, tuple)):
                    new_dict[key] = value[index]
                else:
                    msg = f"kwarg must be a `str` or `iterable` not {type(value)}."
                    raise NotImplementedError(msg)
            expanded_kwargs.append(new_dict)
        return expanded_kwargs
''', '''        def pick(value, index):
            if value is None or isinstance(value, str):
                return value
            if isinstance(value, (list, tuple)):
                return value[index]
            msg = f"kwarg must be a `str` or `iterable` not {type(value)}."
            raise NotImplementedError(msg)

        return [{key: pick(value, index) for key, value in plot_kwargs.items()}
                for index in range(ncols)]
'''))
E("h-ps-limits-wavelength-merge", "peakssuite.py", ('''                if ytype == "velocity":
                    x1, x2 = [np.ones_like(ys)*limit for limit in limits]
                elif ytype == "slowness":
                    x1, x2 = [np.ones_like(ys)*limit for limit in limits]
                else:
                    raise NotImplementedError
''', '''                if ytype not in ("velocity", "slowness"):
                    raise NotImplementedError
                x1, x2 = [limit*np.ones_like(ys) for limit in limits]
'''))
E("h-pk-shown-get", "peaks.py", ('''        return 2*np.pi*self.frequency/self.velocity
''', '''        return 2*np.pi/self.wavelength
'''), ('''        others = ["wavelength", "slowness", "wavenumber"]
        return self.attrs + others
''', '''        return [*self.attrs, "wavelength", "slowness", "wavenumber"]
'''))
E("h-pk-shown-helper", "peaks.py", ('''    @property
    def frequency(self):
        return self._frequency[self._valid]

    @property
    def velocity(self):
        return self._velocity[self._valid]
''', '''    def _shown(self, values):
        return values[self._valid]

    @property
    def frequency(self):
        return self._shown(self._frequency)

    @property
    def velocity(self):
        return self._shown(self._velocity)
'''), ('''        return 1/self._velocity
''', '''        return np.divide(1, self._velocity)
'''))
E("h-pk-parse-helper", "peaks.py", ('''            for row, match in enumerate(getpeak.finditer(peak_data)):
                _, _frq, _slo, _azi, _ell, _noi, _pwr = match.groups()

                frqs[row, col] = float(_frq)
                vels[row, col] = 1/float(_slo)
                azis[row, col] = float(_azi)
                ells[row, col] = float(_ell)
                nois[row, col] = float(_noi)
                pwrs[row, col] = float(_pwr)
''', '''            for row, match in enumerate(getpeak.finditer(peak_data)):
                frq, slo, azi, ell, noi, pwr = (float(x) for x in match.groups()[1:])

                frqs[row, col] = frq
                vels[row, col] = 1/slo
                azis[row, col] = azi
                ells[row, col] = ell
                nois[row, col] = noi
                pwrs[row, col] = pwr
'''))
E("h-pk-parse-tables", "peaks.py", ('''        frqs = np.full((nmaxima, nfrequencies), fill_value=np.nan, dtype=float)
        vels = np.full_like(frqs, fill_value=np.nan, dtype=float)
        azis = np.full_like(frqs, fill_value=np.nan, dtype=float)
        ells = np.full_like(frqs, fill_value=np.nan, dtype=float)
        nois = np.full_like(frqs, fill_value=np.nan, dtype=float)
        pwrs = np.full_like(frqs, fill_value=np.nan, dtype=float)
''', '''        shape = (nmaxima, nfrequencies)
        frqs, vels, azis, ells, nois, pwrs = (np.full(shape, np.nan) for _ in range(6))
'''))
E("h-pk-parse-nmax", "peaks.py", ('''            nmaxima = int(regex.search(peak_data).groups()[0])
            nmaxima = max(1, nmaxima)
            nmaxima = min(100, nmaxima)
''', '''            nmaxima = min(100, max(1, int(regex.search(peak_data).group(1))))
'''))
E("h-pk-parse-dict", "peaks.py", ('''            frequencies = []
            for match in regex.finditer(peak_data):
                _, f, *_ = match.groups()
                if f in frequencies:
                    continue
                else:
                    frequencies.append(f)
''', '''            frequencies = []
            for match in regex.finditer(peak_data):
                f = match.groups()[1]
                if f not in frequencies:
                    frequencies.append(f)
'''))

# ---------------------------------------------------------------- arrays and workflows once more, other idioms
E("i-ar-check-enumerate", "array1d.py", ('''        example = sensors[0]
        positions = [example.x]

        # Ensure sensors are "similar"
        for sensor in sensors[1:]:
            if not example._is_similar(sensor, exclude=["x", "y", "z"]):
                raise ValueError("All sensors must be similar.")
            if sensor.x in positions:
                raise ValueError("Sensors must have unique x positions.")
            positions.append(sensor.x)

        # Sort sensors in terms of x from small to large
        indices = np.argsort(positions)
        sensors = [sensors[i] for i in indices]

        return (sensors, source)
''', '''        example, *others = sensors
        positions = [example.x]

        # Ensure sensors are "similar"
        for other in others:
            if not example._is_similar(other, exclude=["x", "y", "z"]):
                raise ValueError("All sensors must be similar.")
            x = other.x
            if x in positions:
                raise ValueError("Sensors must have unique x positions.")
            positions.append(x)

        # Sort sensors in terms of x from small to large
        ordered = [sensors[index] for index in np.argsort(positions)]
        return ordered, source
'''))
E("i-ar-check-sorted", "array1d.py", ('''        # Sort sensors in terms of x from small to large
        indices = np.argsort(positions)
        sensors = [sensors[i] for i in indices]

        return (sensors, source)
''', '''        # Sort sensors in terms of x from small to large
        return (sorted(sensors, key=lambda sensor: sensor.x), source)
'''))
E("i-ar-matrix-rows", "array1d.py", ('''        matrix = np.empty((self.nchannels, self[0].nsamples))
        for i, sensor in enumerate(self.sensors):
            _amp = sensor.amplitude
            amp = signal.detrend(_amp) if detrend else _amp
            amp = amp/np.max(np.abs(amp)) if normalize == "each" else amp
            matrix[i, :] = amp
''', '''        def row(sensor):
            amplitude = sensor.amplitude
            if detrend:
                amplitude = signal.detrend(amplitude)
            if normalize == "each":
                amplitude = amplitude/np.max(np.abs(amplitude))
            return amplitude

        matrix = np.empty((self.nchannels, self[0].nsamples))
        for i in range(self.nchannels):
            matrix[i] = row(self.sensors[i])
'''))
E("i-ar-position-first", "array1d.py", ('''        if normalize:
            position_0 = self.sensors[0].x
            return [sensor.x - position_0 for sensor in self.sensors]
        else:
            return [sensor.x for sensor in self.sensors]
''', '''        positions = [sensor.x for sensor in self.sensors]
        if not normalize:
            return positions
        first = positions[0]
        return [position - first for position in positions]
'''))
E("i-ar-offsets-map", "array1d.py", ('''        positions = self.position(normalize=False)
        offsets = []
        for position in positions:
            offsets.append(abs(self.source._x - position))
        return offsets
''', '''        source_x = self.source.x
        return [abs(sensor.x - source_x) for sensor in self.sensors]
'''))
E("i-ar-spacing-diff", "array1d.py", ('''        position = self.position()
        min_spacing = min(np.diff(position))
        max_spacing = max(np.diff(position))
        if (max_spacing - min_spacing) < 1E-2:
            return round(min_spacing, 2)
        else:
            raise ValueError("spacing undefined for non-equally spaced arrays")
''', '''        gaps = np.diff(self.position())
        if max(gaps) - min(gaps) >= 1E-2:
            raise ValueError("spacing undefined for non-equally spaced arrays")
        return round(min(gaps), 2)
'''))
E("i-ar-inside-chain", "array1d.py", ('''        sx = self.source.x
        position = self.position(normalize=False)
        return ((sx > position[0]) and (sx < position[-1]))
''', '''        first, *_, last = self.position(normalize=False)
        return first < self.source.x < last
'''), ('''        return True if self.source.x > self.position(normalize=False)[-1] else False
''', '''        return self.source.x > self.sensors[-1].x
'''))
E("i-ar-trim-filter", "array1d.py", ('''        sensors = []
        for offset, sensor in zip(self.offsets, self.sensors):
            if (offset > min_offset) and (offset < max_offset):
                sensors.append(sensor)

        if len(sensors) == 0:
''', '''        def within(offset):
            return min_offset < offset < max_offset

        sensors = [sensor for offset, sensor in zip(self.offsets, self.sensors) if within(offset)]

        if not sensors:
'''))
E("i-ar-waterfall-sizes", "array1d.py", ('''            if time_ax == "x":
                size = (6, 4)
            elif time_ax == "y":
                size = (4, 6)
            else:
                msg = f"time_ax = {time_ax} not recognized, use 'x' or 'y'."
                raise ValueError(msg)
            fig, ax = plt.subplots(figsize=size)
''', '''            sizes = {"x": (6, 4), "y": (4, 6)}
            if time_ax not in sizes:
                raise ValueError(f"time_ax = {time_ax} not recognized, use 'x' or 'y'.")
            fig, ax = plt.subplots(figsize=sizes[time_ax])
'''))
E("i-ar-waterfall-scaled", "array1d.py", ('''        for i, position in enumerate(positions):
            traces[i, :] *= amplitude_scale
            traces[i, :] += position
''', '''        for i, position in enumerate(positions):
            traces[i, :] = traces[i, :]*amplitude_scale + position
'''), ('''        if time_ax == "x":
            for trace in traces:
                ax.plot(time, trace, **kwargs)
                kwargs["label"] = None
        else:
            for trace in traces:
                ax.plot(trace, time, **kwargs)
                kwargs["label"] = None
''', '''        for trace in traces:
            if time_ax == "x":
                ax.plot(time, trace, **kwargs)
            else:
                ax.plot(trace, time, **kwargs)
            kwargs["label"] = None
'''))
E("i-ar-waterfall-args", "array1d.py", ('''        for trace in traces:
                ax.plot(time, trace, **kwargs)
                kwargs["label"] = None
        else:
            for trace in traces:
                ax.plot(trace, time, **kwargs)
                kwargs["label"] = None
''', '''        for trace in traces:
                args = (time, trace)
                ax.plot(*args, **kwargs)
                kwargs["label"] = None
        else:
            for trace in traces:
                args = (trace, time)
                ax.plot(*args, **kwargs)
                kwargs["label"] = None
'''), ('''        default_kwargs = dict(color="b", linewidth=0.5)
        kwargs = {**default_kwargs, **plot_kwargs}

        # Plot waveforms.
''', '''        kwargs = dict(color="b", linewidth=0.5)
        kwargs.update(plot_kwargs)

        # Plot waveforms.
'''))
E("i-wf-snr-property", "maswworkflows.py", ('''        snr = self.settings["signal-to-noise"]
        if snr["perform"] and self.noise is None:
            # Copy array and trim noise.
            self.noise = Array1D.from_array1d(self.array)
            self.noise.trim(snr["noise"]["begin"], snr["noise"]["end"])
''', '''        if self.noise is None:
            self.noise = self._select("noise")

    def _select(self, part):
        """Copy of the array trimmed to one part of the record."""
        snr = self.settings["signal-to-noise"]
        if not snr["perform"]:
            return None
        window = snr[part]
        selection = Array1D.from_array1d(self.array)
        selection.trim(window["begin"], window["end"])
        return selection
'''), ('''        snr = self.settings["signal-to-noise"]
        if snr["perform"] and self.signal is None:
            # Copy array and trim noise.
            self.signal = Array1D.from_array1d(self.array)
            self.signal.trim(snr["signal"]["begin"], snr["signal"]["end"])
''', '''        if self.signal is None:
            self.signal = self._select("signal")
'''))
E("i-wf-mute-guard", "maswworkflows.py", ('''        if mute["apply"]:
            if self.signal_start is None and self.signal_end is None:
                if mute["method"] == "interactive":
                    kwargs = {"window_kwargs": mute["window_kwargs"]} if mute.get("window_kwargs") else {}
                    self.signal_start, self.signal_end = self.array.interactive_mute(**kwargs)
                # TODO (jpv): Implement predefined times for muting.
                else:
                    msg = f"mute type {mute['method']} is unknown, use 'interactive'."
                    raise KeyError(msg)
            else:
                self.array.mute(signal_start=self.signal_start,
                                signal_end=self.signal_end,
                                window_kwargs=mute.get("window_kwargs") or None,
                                )
''', '''        if not mute["apply"]:
            return

        window_kwargs = mute.get("window_kwargs")
        if self.signal_start is not None or self.signal_end is not None:
            self.array.mute(self.signal_start, self.signal_end,
                            window_kwargs=window_kwargs or None)
            return

        # TODO (jpv): Implement predefined times for muting.
        if mute["method"] != "interactive":
            raise KeyError(f"mute type {mute['method']} is unknown, use 'interactive'.")

        kwargs = {}
        if window_kwargs:
            kwargs["window_kwargs"] = window_kwargs
        start, end = self.array.interactive_mute(**kwargs)
        self.signal_start = start
        self.signal_end = end
'''))
E("i-wf-finish", "maswworkflows.py", ('''        self.calculate_snr()
        self.pad()
        proc = self.settings["processing"]
        Transform = WavefieldTransformRegistry.create_class(proc["transform"])
        transform = Transform.from_array(array=self.array, settings=proc)
        transform.array = self.array
        if self.settings["signal-to-noise"]["perform"]:
            transform.snr = self.snr.snr
            transform.snr_frequencies = self.snr.frequencies
        return transform


@MaswWorkflowRegistry.register("single")
''', '''        self.calculate_snr()
        self.pad()
        return self._finish()

    def _finish(self):
        settings = self.settings
        name = settings["processing"]["transform"]
        transform = WavefieldTransformRegistry.create_class(name).from_array(
            array=self.array, settings=settings["processing"])
        transform.array = self.array
        if settings["signal-to-noise"]["perform"]:
            snr = self.snr
            transform.snr, transform.snr_frequencies = snr.snr, snr.frequencies
        return transform


@MaswWorkflowRegistry.register("single")
'''))
E("i-wf-steps-loop", "maswworkflows.py", ('''        self.check()
        self.trim_offsets()
        self.detrend()
        self.select_noise()
        self.trim_time()
        self.mute()
        self.select_signal()
        self.calculate_snr()
        self.pad()
        proc = self.settings["processing"]
''', '''        for step in (self.check, self.trim_offsets, self.detrend,
                     self.select_noise, self.trim_time, self.mute,
                     self.select_signal, self.calculate_snr, self.pad):
            step()
        proc = self.settings["processing"]
'''))
E("i-wf-freq-detrend", "maswworkflows.py", ('''        for sensor in example_array.sensors:
            sensor.detrend()
        preprocess = self.settings["pre-processing"]
        if preprocess["trim"]["apply"]:
            example_array.trim(preprocess["trim"]["begin"],
                               preprocess["trim"]["end"])
        if preprocess["pad"]["apply"]:
            example_array.zero_pad(preprocess["pad"]["df"])
''', '''        for sensor in example_array.sensors:
            sensor.detrend()
        trim = self.settings["pre-processing"]["trim"]
        pad = self.settings["pre-processing"]["pad"]
        if trim["apply"]:
            example_array.trim(trim["begin"], trim["end"])
        if pad["apply"]:
            example_array.zero_pad(pad["df"])
'''))
E("i-wf-single-early", "maswworkflows.py", ('''        if not isinstance(self.fnames, (str,)) and len(self.fnames) != 1:
            self.fnames = self.fnames[0]
            msg = f"fnames may only include a single file for the selected workflow, only processing {self.fnames}."
            warnings.warn(msg)
        return super().run()
''', '''        several = not isinstance(self.fnames, str) and len(self.fnames) != 1
        if several:
            first, *_ = self.fnames
            self.fnames = first
            warnings.warn(f"fnames may only include a single file for the selected workflow, only processing {first}.")
        return super().run()
'''))

# ---------------------------------------------------------------- records and images once more, other idioms
E("j-at-pad-divmod", "activetimeseries.py", ('''        # If new_nsamples > nsamples, pad zeros.
        if new_nsamples > self.nsamples:
            padding = new_nsamples - self.nsamples
        # If new_nsamples < nsamples, pad zeros to achieve a multiple
        # of new_nsamples (i.e.,  a fraction of df). After processing,
        # extract the results at the frequencies of interest.
        elif new_nsamples < self.nsamples:
            # If df_old is already an integer of df_new
            if self.nsamples % new_nsamples == 0:
                self._multiple = int(self.nsamples/new_nsamples)
                return
            # If df_old is not already an integer of df_new, pad existing series.
            else:
                padding = new_nsamples - (self.nsamples % new_nsamples)
                self._multiple = int((self.nsamples + padding) / new_nsamples)
        # If new_samples == nsamples, do nothing.
        else:
            return
''', '''        nsamples = self.nsamples
        if new_nsamples == nsamples:
            return

        if new_nsamples > nsamples:
            padding = new_nsamples - nsamples
        else:
            # Pad to a multiple of new_nsamples (i.e.,  a fraction of df).
            # After processing, extract the frequencies of interest.
            remainder = nsamples % new_nsamples
            if remainder == 0:
                self._multiple = nsamples // new_nsamples
                return
            padding = new_nsamples - remainder
            self._multiple = (nsamples + padding) // new_nsamples
'''))
E("j-at-pad-hstack", "activetimeseries.py", ('''        self._amp = np.concatenate((self._amp, np.zeros((1, padding))), axis=1)
''', '''        self._amp = np.hstack((self._amp, np.zeros((1, padding))))
'''))
E("j-at-pad-npad", "activetimeseries.py", ('''        self._amp = np.concatenate((self._amp, np.zeros((1, padding))), axis=1)
''', '''        zeros = np.zeros(padding).reshape(1, -1)
        self._amp = np.append(self._amp, zeros, axis=1)
'''))
E("j-at-shift-abs", "activetimeseries.py", ('''        if shifts > 0:
            return (shifts, np.concatenate((np.zeros(shifts), b.amplitude[:-shifts])))
        elif shifts < 0:
            return (shifts, np.concatenate((b.amplitude[abs(shifts):], np.zeros(abs(shifts)))))
        else:
            return (shifts, np.array(b.amplitude))
''', '''        amplitude = b.amplitude
        if shifts == 0:
            shifted = np.array(amplitude)
        elif shifts > 0:
            shifted = np.concatenate((np.zeros(shifts), amplitude[:-shifts]))
        else:
            shifted = np.concatenate((amplitude[-shifts:], np.zeros(-shifts)))
        return (shifts, shifted)
'''))
E("j-at-copy-attrs", "activetimeseries.py", ('''        obj = cls(activetimeseries.amplitude,
                  activetimeseries.dt,
                  nstacks=activetimeseries.nstacks)
        # Records trimmed to start after the trigger have a positive delay.
        obj._delay = activetimeseries.delay
        obj._multiple = activetimeseries.multiple
        return obj
''', '''        original = activetimeseries
        obj = cls(amplitude=original.amplitude, dt=original.dt, nstacks=original.nstacks)
        # Records trimmed to start after the trigger have a positive delay.
        obj._delay, obj._multiple = original.delay, original.multiple
        return obj
'''))
E("j-at-check-order", "activetimeseries.py", ('''        delay = float(delay)
        if delay > 0:
            msg = f"delay must be less than or equal to zero, not {delay}."
            raise ValueError(msg)

        return (nstacks, delay)
''', '''        delay = float(delay)
        if not delay > 0:
            return (nstacks, delay)

        raise ValueError(f"delay must be less than or equal to zero, not {delay}.")
'''))
E("j-wt-normalize-branches", "wavefieldtransforms.py", ('''        # Select normalization.
        register = {"none": (np.abs,
                             lambda x: 1.),
                    "absolute-maximum": (lambda x: np.abs(x)/np.max(np.abs(x)),
                                         lambda x: np.max(np.abs(x))),
                    "frequency-maximum": (lambda x: np.abs(x)/np.max(np.abs(x), axis=0),
                                          lambda x: np.max(np.abs(x), axis=0))
                    }
        to_norm, to_abs = register[by]

        # Return power to unnormalized state.
        self.power *= self._to_abs

        # Normalize power
        self.power, self._to_abs = (to_norm(self.power), to_abs(self.power))
''', '''        if by not in ("none", "absolute-maximum", "frequency-maximum"):
            raise KeyError(by)

        # Return power to unnormalized state.
        self.power *= self._to_abs

        # Normalize power
        magnitude = np.abs(self.power)
        if by == "none":
            self.power, self._to_abs = magnitude, 1.
            return
        scale = np.max(magnitude) if by == "absolute-maximum" else np.max(magnitude, axis=0)
        self.power, self._to_abs = magnitude/scale, scale
'''))
E("j-wt-normalize-scale", "wavefieldtransforms.py", ('''        register = {"none": (np.abs,
                             lambda x: 1.),
                    "absolute-maximum": (lambda x: np.abs(x)/np.max(np.abs(x)),
                                         lambda x: np.max(np.abs(x))),
                    "frequency-maximum": (lambda x: np.abs(x)/np.max(np.abs(x), axis=0),
                                          lambda x: np.max(np.abs(x), axis=0))
                    }
        to_norm, to_abs = register[by]
''', '''        register = {"none": lambda x: 1.,
                    "absolute-maximum": lambda x: np.abs(x).max(),
                    "frequency-maximum": lambda x: np.abs(x).max(axis=0)}
        to_abs = register[by]
'''), ('''        self.power, self._to_abs = (to_norm(self.power), to_abs(self.power))
''', '''        self._to_abs = to_abs(self.power)
        self.power = np.abs(self.power)/self._to_abs
'''))
E("j-wt-peak-guard", "wavefieldtransforms.py", ('''        if by == "frequency-maximum":
            return self.velocities[np.argmax(np.abs(self.power), axis=0)]
        else:
            msg = f"find_peak_power by {by} not recognized, see docs for options."
            raise NotImplementedError(msg)
''', '''        if by != "frequency-maximum":
            raise NotImplementedError(f"find_peak_power by {by} not recognized, see docs for options.")

        rows = np.abs(self.power).argmax(axis=0)
        return self.velocities[rows]
'''))
E("j-wt-empty-helper", "wavefieldtransforms.py", ('''        # Create empty power tensor.
        nvel, nfrq = settings["nvel"], len(keep_ids)
        power = np.zeros((nvel, nfrq), dtype=complex)

        return cls(frequencies, velocities, power)
''', '''        # Create empty power tensor.
        shape = (settings["nvel"], len(keep_ids))
        return cls(frequencies, velocities, np.zeros(shape, dtype=complex))
'''))
E("j-wt-keep-inline", "wavefieldtransforms.py", ('''        fmin_ids = np.argmin(np.abs(frequencies-fmin))
        fmax_ids = np.argmin(np.abs(frequencies-fmax))
        keep_ids = range(fmin_ids, (fmax_ids+1), multiple)
        return keep_ids
''', '''        def closest(f):
            return np.abs(f - frequencies).argmin()

        return range(closest(fmin), 1 + closest(fmax), multiple)
'''))
E("j-wt-fk-copy", "wavefieldtransforms.py", ('''        settings = {**settings,
                    "fdbf-specific": {**settings.get("fdbf-specific", {}),
                                      "weighting": "none",
                                      "steering": "plane"}}

        return super().from_array(array, settings)
''', '''        specific = dict(settings.get("fdbf-specific", {}))
        specific.update(weighting="none", steering="plane")
        fk_settings = dict(settings)
        fk_settings["fdbf-specific"] = specific

        return super().from_array(array, fk_settings)
'''))
E("j-snr-spectrum", "snr.py", ('''        # Compute SNR
        s_tseries = signal.timeseriesmatrix()
        snr = np.mean(np.abs(np.fft.fft(s_tseries)[:, keep_ids]), axis=0)
        n_tseries = noise.timeseriesmatrix()
        snr /= np.mean(np.abs(np.fft.fft(n_tseries)[:, keep_ids]), axis=0)

        return cls(frequencies, snr)
''', '''        # Compute SNR
        def spectrum(array):
            transformed = np.fft.fft(array.timeseriesmatrix())
            return np.abs(transformed[:, keep_ids]).mean(axis=0)

        return cls(frequencies, spectrum(signal)/spectrum(noise))
'''))
E("j-snr-pad-loop", "snr.py", ('''            noise = Array1D.from_array1d(noise)
            signal = Array1D.from_array1d(signal)
            noise.zero_pad(df_snr)
            signal.zero_pad(df_snr)
''', '''            signal, noise = (Array1D.from_array1d(array) for array in (signal, noise))
            for array in (noise, signal):
                array.zero_pad(df_snr)
'''))
