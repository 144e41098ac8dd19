XI="timeseries/stationxml/xml_inventory_mt_experiment.py"; XC="timeseries/stationxml/xml_channel_mt_channel.py"; XS="timeseries/stationxml/xml_station_mt_station.py"
CR="timeseries/filters/channel_response.py"; HF="timeseries/filters/helper_functions.py"; SUR="timeseries/survey.py"; RUN="timeseries/run.py"; STA="timeseries/station.py"; CH="timeseries/channel.py"
EDI="transfer_functions/io/edi/edi.py"; EM="transfer_functions/io/emtfxml/emtfxml.py"; ZM="transfer_functions/io/zfiles/zmm.py"; ZO="transfer_functions/io/zonge/zonge.py"; JF="transfer_functions/io/jfiles/jfile.py"; CO="transfer_functions/core.py"
LI="common/list_dict.py"; EX="timeseries/experiment.py"
BUGS=[
# C16
("c16a","C16",[(ZO,"            raise ValueError(\"No filename specified for writing\")","            raise ValueError(f\"No filename specified for {self.station_id}\")")]),
("c16b","C16",[(JF,"                self.header.elevation = get_nm_elev(\n                    self.header.latitude, self.header.longitude\n                )","                self.header.elevation = get_nm_elev(\n                    self.header.latitude, self.header.longitude, datum=\"WGS84\"\n                )")]),
("c16c","C16",[(SUR,"            logger.warning(f\"Could not find {station_id} to remove.\")","            self.logger.warning(f\"Could not find {station_id} to remove.\")")]),
("c16d","C16",[(ZM,"                lon = float(line_list[2])\n                if lon > 180:\n                    lon -= 360\n                self.longitude = lon","                if float(line_list[2]) > 180:\n                    lon = float(line_list[2]) - 360\n                self.longitude = lon")]),
("c16e","C16",[(HF,"        msg = f\"Case {case} not supported for FAP Table\"","        msg = f\"Case {case} not supported for FAP Table {filepath}\"")]),
("c16f","C16",[(CO,"            return_tf = self.copy()\n            return_tf._transfer_function = new_tf","            return_tf = self.copy()\n            return_tf.set_transfer_function(new_tf)")]),
("c16g","C16",[(EDI,"            if abs(np.linalg.det(rh)) < np.finfo(float).eps:","            if abs(np.linalg.determinant(rh)) < np.finfo(float).eps:")]),
("c16h","C16",[(ZO,"            comp_data = comp_data.sort_values(\"frequency\")","            comp_data = comp_data.sort_value(\"frequency\")")]),
("c16i","C16",[(RUN,"            return self.channels_recorded_all.index(component)","            return self.channels_recorded_all().index(component)")]),
("c16j","C16",[(XI,"            if mt_survey.id in mt_experiment.surveys.keys():","            if mt_survey.id in mt_experiment.survey_ids:")]),
("c16k","C16",[(EDI,"                new_edi_fn = Path().cwd().joinpath(f\"{self.Header.dataid}.edi\")","                new_edi_fn = Path.cwd().joinpath(f\"{self.Header.data_id}.edi\")")]),
("c16l","C16",[(SUR,"                station = Station()\n                    station.from_dict","                station = Station()\n                    station.from_dict"),(SUR,"            value_list = value.values()\n\n        elif isinstance(value, (list, tuple)):\n            value_list = value\n\n        for ii, station_entry","            value_list = value.values()\n\n        elif isinstance(value, list):\n            value_list = value\n\n        for ii, station_entry")]),
("c16m","C16",[(ZO,"                    t_mag, t_phase = self.to_amp_phase(t_val.real, t_val.imag)","                    t_mag, t_phase, _ = self.to_amp_phase(t_val.real, t_val.imag)")]),
("c16n","C16",[(STA,"from mt_metadata.timeseries import Run","from mt_metadata.timeseries import Run, Runs")]),
# C17
("c17a","C17",[(SUR,"    release_license: Annotated[","    release_license_x: Annotated[int, Field(default=-1, ge=0)]\n    release_license: Annotated[")]),
("c17b","C17",[("timeseries/run.py","    sample_rate: Annotated[","    rate_label: Annotated[str, Field(default=\"A b\", pattern=r\"^[a-z]+$\")]\n    sample_rate: Annotated[")]),
("c17c","C17",[("timeseries/electric.py","            default=0.0,","            default=\"none\",")]),
# C18
("c18a","C18",[(SUR,"            return list(value)\n        elif value == None:","            return [v for v in value if v.istitle()]\n        elif value == None:")]),
("c18b","C18",[(SUR,"            elif not isinstance(station_entry, (Station)):\n                msg = f\"Item {ii} is not type(Run); type={type(station_entry)}\"\n                fails.append(msg)\n                logger.error(msg)","            elif not isinstance(station_entry, (Station)):\n                continue")]),
("c18c","C18",[(SUR,"                except KeyError:\n                    msg = f\"Item {ii} is not type(Station); type={type(station_entry)}\"\n                    fails.append(msg)\n                    logger.error(msg)","                except KeyError:\n                    pass")]),
("c18d","C18",[(SUR,"        if isinstance(value, str):\n            return [item.strip() for item in value.split(\",\")]","        if isinstance(value, str):\n            return [value.split(\",\")[0].strip()]")]),
("c18e","C18",[(SUR,"        if len(fails) > 0:\n            raise TypeError(\"\\n\".join(fails))\n\n        return stations","        return stations"),]),
("c18f","C18",[(CH,"            if any(f.name == applied_filter.name for f in self.filters):","            if any(f.name == applied_filter.name for f in self.filters) or len(self.filters) > 9:")]),
# C19
("c19a","C19",[(EDI,"        define_lines = self.Measurement.write_measurement(\n            longitude_format=longitude_format, latlon_format=latlon_format\n        )","        define_lines = self.Measurement.write_measurement(\n            longitude_format=longitude_format\n        )")]),
("c19b","C19",[(EDI,"            longitude_format=longitude_format, latlon_format=latlon_format\n        )\n\n        info_lines","            longitude_format=\"LON\", latlon_format=latlon_format\n        )\n\n        info_lines")]),
("c19c","C19",[(SUR,"            self.stations.remove(station_id)\n            if update:\n                self.update_bounding_box()\n                self.update_time_period()","            self.stations.remove(station_id)\n            self.update_bounding_box()\n            self.update_time_period()")]),
("c19d","C19",[(HF,"    cf.units_in = kwargs.get(\"units_in\", default_units_in)","    cf.units_in = default_units_in")]),
("c19e","C19",[(EX,"            survey_object.from_dict(survey_dict, skip_none=skip_none)","            survey_object.from_dict(survey_dict)")]),
("c19f","C19",[(JF,"        if self.header.elevation == 0 and get_elevation:","        if self.header.elevation == 0:")]),
# C20
("c20a","C20",[(XC,"stage=mt_filter.sequence_number,","stage=mt_filter.sequence_number or None,")]),
("c20b","C20",[(ZO,"                    t_err_val = (\n                        self.t_err[f_idx, 0, j] if self.t_err is not None else 0.0\n                    )","                    t_err_val = (\n                        self.t_err[f_idx, 0, j] if self.t_err is not None else 0.0\n                    ) or 1.0")]),
("c20c","C20",[(ZM,"                self.longitude = lon\n","                if lon:\n                    self.longitude = lon\n")]),
("c20d","C20",[(HF,"    cond2 = obspy_stage.decimation_factor in [1, None]","    cond2 = not obspy_stage.decimation_factor or obspy_stage.decimation_factor == 1")]),
("c20e","C20",[(RUN,"        if self.has_channel(component):\n            return self.channels_recorded_all.index(component)\n        return None","        if self.has_channel(component):\n            return self.channels_recorded_all.index(component) or None\n        return None")]),
# C21
("c21a","C21",[(SUR,"                        elif f_type.lower() in [\"time delay\"]:\n                            f = TimeDelayFilter()\n","")]),
("c21b","C21",[(XC,"        elif ch_dict[\"measurement\"] in [\"magnetic\"]:\n            mt_channel = Magnetic()\n        else:","        else:")]),
("c21c","C21",[(ZM,"                if comp in [\"ex\", \"ey\"]:\n                    ch = Electric()\n                else:\n                    ch = Magnetic()","                if comp in [\"ex\"]:\n                    ch = Electric()\n                else:\n                    ch = Magnetic()")]),
("c21d","C21",[(JF,"                if comp.startswith(\"e\"):\n                    ch = Electric(component=comp, channel_id=ii)","                if comp == \"ex\":\n                    ch = Electric(component=comp, channel_id=ii)")]),
("c21e","C21",[(SUR,"elif f_type.lower() in [\"fir\"]:\n                            f = FIRFilter()","elif f_type.lower() in [\"fir\"]:\n                            f = CoefficientFilter()")]),
("c21f","C21",[(RUN,"                    ch = Auxiliary","                    ch = Magnetic")]),
# C22
("c22a","C22",[(JF,"        sm.location.latitude = self.header.latitude\n        sm.location.longitude = self.header.longitude","        sm.location.latitude = self.header.latitude\n        sm.location.longitude = self.header.latitude")]),
("c22b","C22",[(ZM,"                ch.measurement_tilt = channel_dict[\"tilt\"]","                ch.measurement_tilt = channel_dict[\"azimuth\"]")]),
("c22c","C22",[(XC,"                \"dip\": \"measurement_tilt\",","                \"dip\": \"measurement_azimuth\",")]),
("c22d","C22",[(ZO,"                        \"z_phase\": t_phase,","                        \"z_phase\": t_mag,")]),
("c22e","C22",[(EDI,"                self.t[kk, :, :] = tf[2, :]","                self.t[kk, :, :] = tf[1, :]")]),
("c22f","C22",[(XS,"        self.mt_translator[\"time_period.end\"] = \"end_date\"","        self.mt_translator[\"time_period.end\"] = \"start_date\"")]),
("c22g","C22",[(JF,"                        self.t_err[p_index, kk, ll] = float(t_dict[t_key][per_key][2])","                        self.t_err[p_index, ll, kk] = float(t_dict[t_key][per_key][2])")]),
("c22h","C22",[(HF,"        fap_filter.units_in = \"volt\"\n        fap_filter.units_out = \"nanotesla\"","        fap_filter.units_out = \"volt\"\n        fap_filter.units_in = \"nanotesla\"")]),
("c22i","C22",[(HF,"        fap_filter.amplitudes = df[\"Amplitude [V/nT]\"].values","        fap_filter.amplitudes = df[\"Phase [degrees]\"].values")]),
("c22j","C22",[(EM,"        self.site.location.declination.model = sm.location.declination.model","        self.site.location.declination.model = sm.location.datum")]),
# C23
("c23a","C23",[(XC,"                \"dip\": \"measurement_tilt\",","                \"dip\": \"measurement_dip\",")]),
("c23b","C23",[(XS,"            \"location.declination.comments\",","            \"location.declination.comment\",")]),
("c23c","C23",[(XS,"                \"latitude\": \"location.latitude\",","                \"latitude\": \"location.lat\",")]),
("c23d","C23",[(ZM,"                ch.measurement_tilt = channel_dict[\"tilt\"]","                ch.measurement_tilt = channel_dict[\"tlt\"]")]),
("c23e","C23",[(JF,"                    ch = Electric(component=comp, channel_id=ii)","                    ch = Electric(component=comp, channel_idx=ii)")]),
("c23f","C23",[(ZO,"                        \"fc_use\": 100,  # Default values","                        \"fc_used\": 100,  # Default values")]),
("c23g","C23",[(EM,"                \"acqchan\": \"id\",\n","                \"acqchan\": \"ident\",\n")]),
("c23h","C23",[(EDI,"        sm.provenance.submitter.author = self.Header.fileby","        sm.provenance.submitter.authors = self.Header.fileby")]),
]
