"""Behaviour-preserving edits as a maintainer would make them."""
SUR="timeseries/survey.py"; EM="transfer_functions/io/emtfxml/emtfxml.py"; ZM="transfer_functions/io/zfiles/zmm.py"
BUGS=[]
KEEP=[
("k30",[(SUR,'''                        if f_type.lower() in ["zpk"]:
                            f = PoleZeroFilter()
                        elif f_type.lower() in ["coefficient"]:
                            f = CoefficientFilter()
                        elif f_type.lower() in ["time delay"]:
                            f = TimeDelayFilter()
                        elif f_type.lower() in ["fir"]:
                            f = FIRFilter()
                        elif f_type.lower() in ["fap", "frequency response table"]:
                            f = FrequencyResponseTableFilter()
                        else:
                            msg''','''                        filter_classes = {
                            "zpk": PoleZeroFilter,
                            "coefficient": CoefficientFilter,
                            "time delay": TimeDelayFilter,
                            "fir": FIRFilter,
                            "fap": FrequencyResponseTableFilter,
                            "frequency response table": FrequencyResponseTableFilter,
                        }
                        if f_type.lower() in filter_classes:
                            f = filter_classes[f_type.lower()]()
                        else:
                            msg''')]),
("k31",[(SUR,'''                if not isinstance(
                    v,
                    (
                        PoleZeroFilter,
                        CoefficientFilter,
                        TimeDelayFilter,
                        FrequencyResponseTableFilter,
                        FIRFilter,
                    ),
                ):
                    msg = f"Item {k} is not Filter type; type={type(v)}"
                    fails.append(msg)
                    logger.error(msg)
                else:
                    filters[k.lower()] = v
''','''                if isinstance(v, FILTER_CLASSES):
                    filters[k.lower()] = v
                    continue
                msg = f"Item {k} is not Filter type; type={type(v)}"
                fails.append(msg)
                logger.error(msg)
'''),(SUR,'''class Survey(''','''FILTER_CLASSES = (
    PoleZeroFilter,
    CoefficientFilter,
    TimeDelayFilter,
    FrequencyResponseTableFilter,
    FIRFilter,
)


class Survey(''')]),
("k32",[(SUR,'''            if not len(lat) == 0:
                self.southeast_corner.latitude = min(lat)
                self.northwest_corner.latitude = max(lat)
            if not len(lon) == 0:
                self.southeast_corner.longitude = max(lon)
                self.northwest_corner.longitude = min(lon)
''','''            if lat:
                south, north = min(lat), max(lat)
                self.southeast_corner.latitude = south
                self.northwest_corner.latitude = north
            if lon:
                west, east = min(lon), max(lon)
                self.southeast_corner.longitude = east
                self.northwest_corner.longitude = west
''')]),
("k33",[(SUR,'''            lat = []
            lon = []
            for station in self.stations:
                if station.location.latitude is not None:
                    lat.append(station.location.latitude)
                if station.location.longitude is not None:
                    lon.append(station.location.longitude)
''','''            locations = [station.location for station in self.stations]
            lat = [loc.latitude for loc in locations if loc.latitude is not None]
            lon = [loc.longitude for loc in locations if loc.longitude is not None]
''')]),
("k34",[(SUR,'''            if end:
                if self.time_period.end_is_default():
                    self.time_period.end_date = max(end)
                else:
                    if self.time_period.end_date < max(end):
                        self.time_period.end_date = max(end)
''','''            if end:
                period = self.time_period
                latest = max(end)
                if period.end_is_default() or period.end_date < latest:
                    period.end_date = latest
''')]),
("k35",[(SUR,'''        if self.has_station(station_id):
            return self.stations[station_id]
        else:
            logger.warning(f"Could not find station {station_id}")
            return None
''','''        if not self.has_station(station_id):
            logger.warning("Could not find station " + str(station_id))
            return None
        return self.stations[station_id]
''')]),
("k36",[(EM,'''        if self.data.z_var is not None:
            if not np.all(self.data.z_var == 0.0):
                self.statistical_estimates.estimates_list.append(
                    estimates_dict["variance"].copy()
                )
        elif self.data.t_var is not None:
            if not np.all(self.data.t_var == 0.0):
                self.statistical_estimates.estimates_list.append(
                    estimates_dict["variance"].copy()
                )

        if self.data.z_invsigcov is not None:
            if not np.all(self.data.z_invsigcov == 0.0):
                self.statistical_estimates.estimates_list.append(
                    estimates_dict["inverse_signal_power"].copy()
                )
        elif self.data.t_invsigcov is not None:
            if not np.all(self.data.t_invsigcov == 0.0):
                self.statistical_estimates.estimates_list.append(
                    estimates_dict["inverse_signal_power"].copy()
                )

        if self.data.z_residcov is not None:
            if not np.all(self.data.z_residcov == 0.0):
                self.statistical_estimates.estimates_list.append(
                    estimates_dict["residual_covariance"].copy()
                )
        elif self.data.t_residcov is not None:
            if not np.all(self.data.t_residcov == 0.0):
                self.statistical_estimates.estimates_list.append(
                    estimates_dict["residual_covariance"].copy()
                )
''','''        for z_array, t_array, name in (
            (self.data.z_var, self.data.t_var, "variance"),
            (self.data.z_invsigcov, self.data.t_invsigcov, "inverse_signal_power"),
            (self.data.z_residcov, self.data.t_residcov, "residual_covariance"),
        ):
            array = z_array if z_array is not None else t_array
            if array is not None and not np.all(array == 0.0):
                self.statistical_estimates.estimates_list.append(
                    estimates_dict[name].copy()
                )
''')]),
("k37",[(EM,'''        self.statistical_estimates.estimates_list = []
        if self.data.z_var is not None:
            if not np.all(self.data.z_var == 0.0):
                self.statistical_estimates.estimates_list.append(
                    estimates_dict["variance"].copy()
                )
        elif self.data.t_var is not None:
            if not np.all(self.data.t_var == 0.0):
                self.statistical_estimates.estimates_list.append(
                    estimates_dict["variance"].copy()
                )
''','''        estimates = []
        if self.data.z_var is not None:
            if not np.all(self.data.z_var == 0.0):
                estimates.append(estimates_dict["variance"].copy())
        elif self.data.t_var is not None:
            if not np.all(self.data.t_var == 0.0):
                estimates.append(estimates_dict["variance"].copy())
        self.statistical_estimates.estimates_list = estimates
''')]),
("k38",[(EM,'''        if list(sorted(input_channels)) != list(sorted(current_input_names)):
            new_input_channels = []
            for ach in input_channels:
                find = False
                for ch in self.site_layout.input_channels:
                    if ch.name.lower() == ach.lower():
                        new_input_channels.append(ch)
                        find = True
                if not find:
                    new_input_channels.append(ach)
            self.site_layout.input_channels = new_input_channels
''','''        if sorted(input_channels) != sorted(current_input_names):
            by_name = {ch.name.lower(): ch for ch in self.site_layout.input_channels}
            self.site_layout.input_channels = [
                by_name.get(ach.lower(), ach) for ach in input_channels
            ]
''')]),
("k39",[(EM,'''            mag_names = []
            for d in self.field_notes._run_list[0].magnetometer:
                if isinstance(d.name, str):
                    mag_names.append(d.name.lower())
                else:
                    mag_names.append(d.name)
''','''            mag_names = [
                d.name.lower() if isinstance(d.name, str) else d.name
                for d in self.field_notes._run_list[0].magnetometer
            ]
''')]),
("k40",[(EM,'''            setattr(
                self.field_notes._run_list[0].magnetometer[index],
                m_dict[fkey],
                value,
            )
''','''            magnetometer = self.field_notes._run_list[0].magnetometer[index]
            attribute = m_dict[fkey]
            setattr(magnetometer, attribute, value)
''')]),
("k41",[(EM,'''        survey_obj.citation_dataset.authors = self.copyright.citation.authors
        survey_obj.citation_dataset.title = self.copyright.citation.title
        survey_obj.citation_dataset.year = self.copyright.citation.year
        survey_obj.citation_dataset.doi = self.copyright.citation.survey_d_o_i
''','''        citation = self.copyright.citation
        for target_name, source_name in (
            ("authors", "authors"),
            ("title", "title"),
            ("year", "year"),
            ("doi", "survey_d_o_i"),
        ):
            setattr(
                survey_obj.citation_dataset, target_name, getattr(citation, source_name)
            )
''')]),
("k42",[(EM,'''        s.provenance.creator.author = self.provenance.creator.name
        s.provenance.creator.email = self.provenance.creator.email
        s.provenance.creator.organization = self.provenance.creator.organization
        s.provenance.creator.url = self.provenance.creator.url
        s.provenance.submitter.author = self.provenance.submitter.name
        s.provenance.submitter.email = self.provenance.submitter.email
        s.provenance.submitter.organization = self.provenance.submitter.organization
        s.provenance.submitter.url = self.provenance.submitter.url
''','''        for role in ("creator", "submitter"):
            source = getattr(self.provenance, role)
            target = getattr(s.provenance, role)
            target.author = source.name
            target.email = source.email
            target.organization = source.organization
            target.url = source.url
''')]),
("k43",[(EM,'''        if sm.geographic_name is None:
            self.site.survey = sm.id
        else:
            self.site.survey = sm.geographic_name
''','''        self.site.survey = (
            sm.id if sm.geographic_name is None else sm.geographic_name
        )
''')]),
("k44",[(EM,'''            if key == "external_url":
                if self.external_url.url in [None, "None", "", "none"]:
                    continue
            if skip_field_notes:
                if key == "field_notes":
                    continue
''','''            if self._skip_section(key, skip_field_notes):
                continue
'''),(EM,'''    def _get_data_types(self):
''','''    def _skip_section(self, key: str, skip_field_notes: bool) -> bool:
        if key == "external_url":
            return self.external_url.url in [None, "None", "", "none"]
        return skip_field_notes and key == "field_notes"

    def _get_data_types(self):
''')]),
("k45",[(ZM,'''                channel_dict = {"channel": comp}
                channel_dict["number"] = int(
                    line_list[0]
                )  # Changed from "chn_num" to "number"
                channel_dict["azimuth"] = float(
                    line_list[1]
                )  # Changed from "azm" to "azimuth"
                channel_dict["tilt"] = float(line_list[2])
                channel_dict["dl"] = line_list[3]
''','''                number, azimuth, tilt, dl = line_list[:4]
                channel_dict = {
                    "channel": comp,
                    "number": int(number),
                    "azimuth": float(azimuth),
                    "tilt": float(tilt),
                    "dl": dl,
                }
''')]),
("k46",[(ZM,'''        channels = {}
        for cc in ["ex", "ey", "hx", "hy", "hz"]:
            ch = getattr(self, cc)
            if ch is not None:
                # Ensure channel value is extracted as string from ChannelEnum
                channel_value = ch.channel
                if hasattr(channel_value, "value"):
                    channels[ch.index] = channel_value.value
                else:
                    channels[ch.index] = str(channel_value)
''','''        channels = {}
        for cc in ["ex", "ey", "hx", "hy", "hz"]:
            ch = getattr(self, cc)
            if ch is None:
                continue
            channels[ch.index] = getattr(ch.channel, "value", None) or str(ch.channel)
''')]),
("k47",[(ZM,'''        if "hz" in self.channels_recorded:
            return True
        return False
''','''        return "hz" in self.channels_recorded
''')]),
("k48",[(ZM,'''        for comp in DEFAULT_CHANNEL_NOMENCLATURE.keys():
            try:
                setattr(self, f"_{comp}", ch_dict[comp])
            except KeyError:
                setattr(self, f"_{comp}", comp)
                ch_dict[comp] = comp
''','''        for comp in DEFAULT_CHANNEL_NOMENCLATURE:
            name = ch_dict.setdefault(comp, comp)
            setattr(self, f"_{comp}", name)
''')]),
("k49",[(ZM,'''        tf = xr.DataArray(
            data=0.0 + 0j,
            dims=["period", "output", "input"],
            coords={
                "period": periods,
                "output": self._ch_output_dict["all"],
                "input": self._ch_input_dict["all"],
            },
            name="transfer_function",
        )

        tf_err = xr.DataArray(
            data=0.0,
            dims=["period", "output", "input"],
            coords={
                "period": periods,
                "output": self._ch_output_dict["all"],
                "input": self._ch_input_dict["all"],
            },
            name="transfer_function_error",
        )
''','''        def empty(name, fill):
            return xr.DataArray(
                data=fill,
                dims=["period", "output", "input"],
                coords={
                    "period": periods,
                    "output": self._ch_output_dict["all"],
                    "input": self._ch_input_dict["all"],
                },
                name=name,
            )

        tf = empty("transfer_function", 0.0 + 0j)
        tf_err = empty("transfer_function_error", 0.0)
''')]),
("k50",[(ZM,'''        for rr in self.station_metadata.runs:
            if self.transfer_functions.shape[1] >= 2:
                rr.ex = self.ex_metadata
                rr.ey = self.ey_metadata
            rr.hx = self.hx_metadata
            rr.hy = self.hy_metadata
            if self.hz is not None:
                rr.hz = self.hz_metadata
''','''        components = ["hx", "hy"]
        if self.transfer_functions.shape[1] >= 2:
            components = ["ex", "ey"] + components
        if self.hz is not None:
            components.append("hz")
        for rr in self.station_metadata.runs:
            for comp in components:
                setattr(rr, comp, getattr(self, f"{comp}_metadata"))
''')]),
("k51",[(ZM,'''            if line.find("**") >= 0:
                if self.station_metadata.comments.value:
                    self.station_metadata.comments.value += (
                        "\\n" + line.replace("*", "").strip()
                    )
                else:
                    self.station_metadata.comments.value = line.replace("*", "").strip()
''','''            if "**" in line:
                text = line.replace("*", "").strip()
                previous = self.station_metadata.comments.value
                self.station_metadata.comments.value = (
                    f"{previous}\\n{text}" if previous else text
                )
''')]),
]
