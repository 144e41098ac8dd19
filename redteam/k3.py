"""Behaviour-preserving edits as a maintainer would make them."""
CO="transfer_functions/core.py"; XC="timeseries/stationxml/xml_channel_mt_channel.py"; EDI="transfer_functions/io/edi/edi.py"
BUGS=[]
KEEP=[
("k60",[(CO,'''        for k, v in self.__dict__.items():
            if k in ["logger"]:
                continue

            setattr(result, k, deepcopy(v, memo))
''','''        state = {k: v for k, v in self.__dict__.items() if k not in ["logger"]}
        for attribute, value in state.items():
            duplicate = deepcopy(value, memo)
            setattr(result, attribute, duplicate)
'''),]),
("k61",[(CO,'''        for ch in [cc for cc in default if cc.startswith("e")]:
            run_metadata.add_channel(Electric(component=ch))
        for ch in [cc for cc in default if cc.startswith("h")]:
            run_metadata.add_channel(Magnetic(component=ch))
''','''        for prefix, channel_class in (("e", Electric), ("h", Magnetic)):
            for ch in default:
                if ch.startswith(prefix):
                    run_metadata.add_channel(channel_class(component=ch))
''')]),
("k62",[(CO,'''            if len(self._survey_metadata.stations.keys()) > 1:
                if "0" in self._survey_metadata.stations.keys():
                    self._survey_metadata.stations.remove("0")
''','''            stations = self._survey_metadata.stations
            if len(stations.keys()) > 1 and "0" in stations.keys():
                stations.remove("0")
''')]),
("k63",[(CO,'''        self.ex = self._channel_nomenclature["ex"]
        self.ey = self._channel_nomenclature["ey"]
        self.hx = self._channel_nomenclature["hx"]
        self.hy = self._channel_nomenclature["hy"]
        self.hz = self._channel_nomenclature["hz"]
''','''        names = self._channel_nomenclature
        self.ex, self.ey = names["ex"], names["ey"]
        self.hx, self.hy, self.hz = names["hx"], names["hy"], names["hz"]
''')]),
("k64",[(CO,'''        if isinstance(value, (list, tuple, np.ndarray)):
            value = np.array(value)
            self._validate_input_ndarray(value, atype=atype)
            self._transfer_function[key].loc[comps] = value
        elif isinstance(value, xr.DataArray):
            nda = self._validate_input_dataarray(value, atype=atype)
            self._transfer_function[key].loc[comps] = nda
        else:
            msg = (
                f"Data type {type(value)} not supported use a numpy "
                "array or xarray.DataArray"
            )
            logger.error(msg)
            raise TFError(msg)
''','''        if isinstance(value, xr.DataArray):
            checked = self._validate_input_dataarray(value, atype=atype)
        elif isinstance(value, (list, tuple, np.ndarray)):
            checked = np.array(value)
            self._validate_input_ndarray(checked, atype=atype)
        else:
            msg = (
                f"Data type {type(value)} not supported use a numpy "
                "array or xarray.DataArray"
            )
            logger.error(msg)
            raise TFError(msg)
        self._transfer_function[key].loc[comps] = checked
''')]),
("k65",[(CO,'''            runs = ListDict()
            if self.run_metadata.id not in ["0", 0, None]:
                runs.append(self.run_metadata.copy())
            runs.extend(station_metadata.runs)
            if len(runs) == 0:
                runs[0] = Run(id="0")
''','''            runs = ListDict()
            current_run = self.run_metadata
            if current_run.id not in ["0", 0, None]:
                runs.append(current_run.copy())
            runs.extend(station_metadata.runs)
            if not len(runs):
                runs[0] = Run(id="0")
''')]),
("k66",[(CO,'''        if not isinstance(station_metadata, Station):
            if isinstance(station_metadata, dict):
                if "station" not in [cc.lower() for cc in station_metadata.keys()]:
                    station_metadata = {"Station": station_metadata}
                st_metadata = Station()
                st_metadata.from_dict(station_metadata)
                logger.debug("Loading from metadata dict")
                return st_metadata
            else:
                msg = (
                    f"input metadata must be type {type(self.station_metadata)}"
                    f" or dict, not {type(station_metadata)}"
                )
                logger.error(msg)
                raise TypeError(msg)
        return station_metadata
''','''        if isinstance(station_metadata, Station):
            return station_metadata
        if not isinstance(station_metadata, dict):
            msg = (
                f"input metadata must be type {type(self.station_metadata)}"
                f" or dict, not {type(station_metadata)}"
            )
            logger.error(msg)
            raise TypeError(msg)

        has_class_key = any(cc.lower() == "station" for cc in station_metadata)
        contents = station_metadata if has_class_key else {"Station": station_metadata}
        loaded = Station()
        loaded.from_dict(contents)
        logger.debug("Loading from metadata dict")
        return loaded
''')]),
("k67",[(XC,'''            for direction in ["positive", "negative"]:
                for pos in ["latitude", "longitude", "elevation"]:
                    key = f"{direction}.{pos}"
                    value = getattr(xml_channel, pos)
                    mt_channel.update_attribute(key, value)
''','''            for electrode in (mt_channel.positive, mt_channel.negative):
                electrode.latitude = xml_channel.latitude
                electrode.longitude = xml_channel.longitude
                electrode.elevation = xml_channel.elevation
''')]),
("k68",[(XC,'''        is_electric = mt_channel.type in ["electric"]

        if is_electric:
            xml_channel = inventory.Channel(
                channel_code,
                "",
                mt_channel.positive.latitude,
                mt_channel.positive.longitude,
                mt_channel.positive.elevation,
                0,
            )
        else:
            xml_channel = inventory.Channel(
                channel_code,
                "",
                mt_channel.location.latitude,
                mt_channel.location.longitude,
                mt_channel.location.elevation,
                0,
            )
''','''        if mt_channel.type in ["electric"]:
            place = mt_channel.positive
        else:
            place = mt_channel.location
        xml_channel = inventory.Channel(
            code=channel_code,
            location_code="",
            latitude=place.latitude,
            longitude=place.longitude,
            elevation=place.elevation,
            depth=0,
        )
''')]),
("k69",[(XC,'''            mt_channel.positive.manufacturer = sensor.manufacturer
            mt_channel.positive.model = sensor.model
            mt_channel.positive.type = "electrode"

            mt_channel.negative.manufacturer = sensor.manufacturer
            mt_channel.negative.model = sensor.model
            mt_channel.negative.type = "electrode"
''','''            for electrode in [mt_channel.positive, mt_channel.negative]:
                electrode.manufacturer = sensor.manufacturer
                electrode.model = sensor.model
                electrode.type = "electrode"
''')]),
("k70",[(XC,'''        if description and name:
            if len(description) > len(name):
                mt_channel.units = description
            else:
                mt_channel.units = name
        elif description:
            mt_channel.units = description
        elif name:
            mt_channel.units = name
        else:
            logger.debug("Did not find any units descriptions in XML")
''','''        candidates = [text for text in (name, description) if text]
        if not candidates:
            logger.debug("Did not find any units descriptions in XML")
        else:
            mt_channel.units = max(candidates, key=len)
''')]),
("k71",[(XC,'''        if ch_dict["measurement"] in ["electric"]:
            mt_channel = Electric()
        elif ch_dict["measurement"] in ["magnetic"]:
            mt_channel = Magnetic()
        else:
            mt_channel = Auxiliary(type=ch_dict["measurement"])
''','''        measurement = ch_dict["measurement"]
        makers = {"electric": Electric, "magnetic": Magnetic}
        if measurement in makers:
            mt_channel = makers[measurement]()
        else:
            mt_channel = Auxiliary(type=measurement)
''')]),
("k72",[(XC,'''            pid, nid = [ss.split(":")[1].strip() for ss in serial_list]
            return pid, nid
''','''            positive, negative = serial_list
            return positive.split(":")[1].strip(), negative.split(":")[1].strip()
''')]),
("k73",[(XC,'''            if xml_key in ["azimuth"]:
                xml_channel.azimuth = mt_channel.measurement_azimuth % 360
            elif xml_key in ["dip"]:
                xml_channel.dip = mt_channel.measurement_tilt % 360
            elif "time_period" in mt_key:
                value = mt_channel.get_attr_from_name(mt_key).time_stamp
                setattr(xml_channel, xml_key, value)
            else:
                setattr(xml_channel, xml_key, mt_channel.get_attr_from_name(mt_key))
''','''            value = mt_channel.get_attr_from_name(mt_key)
            if xml_key in ["azimuth", "dip"]:
                value = value % 360
            elif "time_period" in mt_key:
                value = value.time_stamp
            setattr(xml_channel, xml_key, value)
''')]),
("k74",[(EDI,'''        if self.Header.latitude in [None, 0.0]:
            self.Header.latitude = self.Measurement.reflat
            self.logger.debug(f"Got latitude from reflat for {self.Header.dataid}")
        if self.Header.longitude in [None, 0.0]:
            self.Header.longitude = self.Measurement.reflon
            self.logger.debug(f"Got longitude from reflon for {self.Header.dataid}")
        if self.Header.elevation in [None, 0.0]:
            self.Header.elevation = self.Measurement.refelev
            self.logger.debug(f"Got elevation from refelev for {self.Header.dataid}")
''','''        for coordinate, reference in (
            ("latitude", "reflat"),
            ("longitude", "reflon"),
            ("elevation", "refelev"),
        ):
            if getattr(self.Header, coordinate) in [None, 0.0]:
                setattr(self.Header, coordinate, getattr(self.Measurement, reference))
                self.logger.debug(
                    f"Got {coordinate} from {reference} for {self.Header.dataid}"
                )
''')]),
("k75",[(EDI,'''            if self.Data.nchan == 5:
                c_list = ["hx", "hy", "hz", "ex", "ey"]
            elif self.Data.nchan == 4:
                c_list = ["hx", "hy", "ex", "ey"]
            elif self.Data.nchan == 6:
                c_list = ["hx", "hy", "ex", "ey", "rhx", "rhy"]
            elif self.Data.nchan == 7:
                c_list = ["hx", "hy", "hz", "ex", "ey", "rhx", "rhy"]
            else:
                raise ValueError(''','''            channels_by_count = {
                4: ["hx", "hy", "ex", "ey"],
                5: ["hx", "hy", "hz", "ex", "ey"],
                6: ["hx", "hy", "ex", "ey", "rhx", "rhy"],
                7: ["hx", "hy", "hz", "ex", "ey", "rhx", "rhy"],
            }
            c_list = channels_by_count.get(self.Data.nchan)
            if c_list is None:
                raise ValueError(''')]),
("k76",[(EDI,'''            rh[0, 0] = s_arr[cc.rhx, cc.hx]
            rh[0, 1] = s_arr[cc.rhx, cc.hy]
            rh[1, 0] = s_arr[cc.rhy, cc.hx]
            rh[1, 1] = s_arr[cc.rhy, cc.hy]

            rr[0, 0] = s_arr[cc.rhx, cc.rhx]
            rr[0, 1] = s_arr[cc.rhx, cc.rhy]
            rr[1, 0] = s_arr[cc.rhy, cc.rhx]
            rr[1, 1] = s_arr[cc.rhy, cc.rhy]

            hh[0, 0] = s_arr[cc.hx, cc.hx]
            hh[0, 1] = s_arr[cc.hx, cc.hy]
            hh[1, 0] = s_arr[cc.hy, cc.hx]
            hh[1, 1] = s_arr[cc.hy, cc.hy]
''','''            remote = [cc.rhx, cc.rhy]
            local = [cc.hx, cc.hy]
            for row in range(2):
                for col in range(2):
                    rh[row, col] = s_arr[remote[row], local[col]]
                    rr[row, col] = s_arr[remote[row], remote[col]]
                    hh[row, col] = s_arr[local[row], local[col]]
''')]),
("k77",[(EDI,'''            if cc.has_tipper and cc.has_electric:
                self.z[kk, :, :] = tf[0:2, :]
                self.z_err[kk, :, :] = tf_err[0:2, :]
                self.t[kk, :, :] = tf[2, :]
                self.t_err[kk, :, :] = tf_err[2, :]
                self.z_err[np.where(np.nan_to_num(self.z_err) == 0.0)] = 1.0
                self.t_err[np.nan_to_num(self.t_err) == 0.0] = 1.0
''','''            if cc.has_tipper and cc.has_electric:
                impedance_rows, tipper_row = slice(0, 2), 2
                self.z[kk] = tf[impedance_rows]
                self.z_err[kk] = tf_err[impedance_rows]
                self.t[kk] = tf[tipper_row]
                self.t_err[kk] = tf_err[tipper_row]
                self.z_err[np.where(np.nan_to_num(self.z_err) == 0.0)] = 1.0
                self.t_err[np.nan_to_num(self.t_err) == 0.0] = 1.0
''')]),
("k78",[(EDI,'''                try:
                    key = float(
                        [
                            ss.split("=")[1]
                            for ss in line_list
                            if ss.lower().find("freq") == 0
                        ][0]
                    )
''','''                try:
                    frequencies = [
                        ss.split("=")[1]
                        for ss in line_list
                        if ss.lower().startswith("freq")
                    ]
                    key = float(frequencies[0])
''')]),
("k79",[(EDI,'''        if fn is not None:
            self._fn = Path(fn)
        if self.fn is None:
            msg = "Must input EDI file to read"
            self.logger.error(msg)
            raise IOError(msg)
''','''        if fn is None and self.fn is None:
            msg = "Must input EDI file to read"
            self.logger.error(msg)
            raise IOError(msg)
        if fn is not None:
            self._fn = Path(fn)
''')]),
]
