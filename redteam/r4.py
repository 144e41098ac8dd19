STA="timeseries/station.py"; XC="timeseries/stationxml/xml_channel_mt_channel.py"; DL="processing/aurora/decimation_level.py"; DM="transfer_functions/io/edi/metadata/define_measurement.py"; DA="transfer_functions/io/emtfxml/metadata/data.py"; ZO="transfer_functions/io/zonge/zonge.py"; CW="features/weights/channel_weight_spec.py"; EDI="transfer_functions/io/edi/edi.py"
BUGS=[
# C12 looking changes nothing
("d12a","C12",[(DL,"return np.array(sorted([band.index_min for band in self.bands]))","self.bands.sort(key=lambda b: b.index_min)\n        return np.array([band.index_min for band in self.bands])")]),
("d12b","C12",[(DL,"        return self.input_channels + self.output_channels","        channels = self.input_channels\n        channels += self.output_channels\n        return channels")]),
("d12c","C12",[(DA,"            arr = np.nan_to_num(self.array_dict[key][index])","            arr = np.nan_to_num(self.array_dict[key][index], copy=False)")]),
("d12d","C12",[(DA,"            arr = np.nan_to_num(self.array_dict[key][index])","            arr = self.array_dict[key][index]\n            arr[np.isnan(arr)] = 0")]),
("d12e","C12",[(STA,"        if self.has_run(run_id):\n            return self.runs[run_id]\n","        if self.has_run(run_id):\n            self.update_run_list()\n            self.runs[run_id].update_channel_keys()\n            return self.runs[run_id]\n")]),
("d12f","C13",[(XC,"            k, v = self.read_xml_comment(comment)\n","            k, v = self.read_xml_comment(comment)\n            comment.subject = k\n")]),
# C13
("d13a","C13",[(DM,"        channel = channel.copy()\n        azm","        azm")]),
("d13b","C13",[(CW,"        result = []\n        for item in value:\n            if isinstance(item, FeatureWeightSpec):","        result = value\n        for item in list(value):\n            if isinstance(item, FeatureWeightSpec):")]),
("d13c","C13",[(STA,"                merged.merge(other.copy())","                other.update_all()\n                merged.merge(other)")]),
("d13d","C13",[(XC,"        original_sensor_type = sensor.type\n","        original_sensor_type = sensor.type\n        if sensor.description is None:\n            sensor.description = \"\"\n")]),
# C14/C15
("d14a","C14",[(DL,"fc_dec_obj.stft.window = self.stft.window.copy()","fc_dec_obj.stft.window = self.stft.window")]),
("d14b","C14",[(DM,"            value = getattr(self, key)\n            if key in","            self._define_meas_keys.sort()\n            value = getattr(self, key)\n            if key in")]),
("d15a","C15",[(STA,"                merged = self.copy()\n                merged.merge(other.copy())\n                return merged","                merged = self.model_copy()\n                merged.merge(other.copy())\n                return merged")]),
("d15b","C15",[(STA,"        if inplace:\n            self.runs = new_runs\n        else:\n            return new_runs","        self.runs = new_runs\n        if not inplace:\n            return new_runs")]),
# C16
("d16a","C16",[(DM,"                    if value.azm == 0:\n                        value.azm = value.azimuth","                    if value.azm == 0:\n                        value.azm = value.measurement_azimuth")]),
("d16b","C16",[(XC,"                existing_filters[filter_name] = mt_filter","                existing_filters[new_name] = mt_filter")]),
("d16c","C16",[(DL,"            obj = Band()\n            obj.from_dict(band)\n        else:\n            obj = band\n","            obj = Band()\n            obj.read_dict(band)\n        else:\n            obj = band\n")]),
("d16d","C16",[(ZO,"            rm.add_channel(self.hz_metadata)\n","            rm.add_channel(self.hz_metadata())\n")]),
("d16e","C16",[(STA,"        if not isinstance(run_obj, Run):\n            raise TypeError(\n","        if not isinstance(run_obj, Run):\n            raise MTSchemaError(\n")]),
# C18
("d18a","C18",[(STA,"            if isinstance(run_entry, (dict, OrderedDict)):","            if ii and run_entry in value_list:\n                continue\n            if isinstance(run_entry, (dict, OrderedDict)):")]),
("d18b","C18",[(DL,"            if isinstance(item, dict):\n                validated_specs.append(ChannelWeightSpec(**item))\n            elif","            if isinstance(item, dict):\n                if item:\n                    ChannelWeightSpec(**item)\n            elif")]),
("d18c","C18",[(DL,"            raise TypeError(f\"List entry must be a Band object not {type(band)}\")","            return")]),
("d18d","C18",[(DA,"        if isinstance(value, (list, tuple, np.ndarray)):\n            return np.array(value, dtype=cls._array_dtypes_dict[info.field_name])","        if isinstance(value, (list, tuple, np.ndarray)):\n            if len(value) == 1:\n                return None\n            return np.array(value, dtype=cls._array_dtypes_dict[info.field_name])")]),
("d18e","C18",[(STA,"            value = [v.strip() for v in value.split(\",\")]\n        else:\n            raise TypeError(","            value = [v.strip() for v in value.split(\",\") if len(v) == 2]\n        else:\n            raise TypeError(")]),
# C19
("d19a","C19",[(DL,"        if remote:\n            fc_dec_obj.channels_estimated = self.reference_channels\n        else:\n            fc_dec_obj.channels_estimated = self.local_channels\n","        fc_dec_obj.channels_estimated = self.local_channels\n")]),
("d19b","C19",[(STA,"            if update:\n                self.update_all()\n        else:\n            logger.warning(f\"Could not find {run_id} to remove.\")","            self.update_all()\n        else:\n            logger.warning(f\"Could not find {run_id} to remove.\")")]),
("d19c","C19",[(DM,"            if key.upper() == \"REFLON\":\n                if longitude_format == \"LONG\":\n                    key += \"G\"\n","")]),
# C20
("d20a","C20",[(STA,"        if run_obj.id is None:","        if not run_obj.id:"),(DM,"        if azm is None:\n            azm = 0.0","        azm = azm or channel.measurement_azimuth")]),
("d20b","C20",[(DM,"            if value is not None:\n                measurement_lines","            if value:\n                measurement_lines")]),
("d20c","C20",[(DA,"        if self.period is not None:\n            return self.period.size\n        return 0","        return self.period.size if self.period.any() else 0")]),
# C21
("d21a","C21",[(XC,"            (Electric, Magnetic, Auxiliary),","            (Electric, Magnetic),")]),
("d21b","C21",[(XC,"            if not isinstance(mt_channel, Auxiliary):","            if not isinstance(mt_channel, Magnetic):")]),
# C22
("d22a","C22",[(ZO,"ch.measurement_azimuth = self.header._comp_dict[\"zyx\"][\"ch\"].azimuth[0]","ch.measurement_azimuth = self.header._comp_dict[\"zxy\"][\"ch\"].azimuth[0]")]),
("d22b","C22",[(DM,"                    \"x2\": channel.positive.x2,\n                    \"y\": channel.negative.y,","                    \"x2\": channel.positive.x2,\n                    \"y\": channel.negative.x,")]),
("d22c","C22",[(XC,"                mt_channel.positive.latitude,\n                mt_channel.positive.longitude,","                mt_channel.positive.longitude,\n                mt_channel.positive.latitude,")]),
("d22d","C22",[(XC,"            xml_channel.dip = mt_channel.measurement_tilt % 360".replace("            xml","                xml"),"                xml_channel.dip = mt_channel.measurement_azimuth % 360")]),
("d22e","C22",[(STA,"            if end:\n                if self.time_period.end == \"1980-01-01T00:00:00+00:00\":\n                    self.time_period.end = max(end)","            if end:\n                if self.time_period.end == \"1980-01-01T00:00:00+00:00\":\n                    self.time_period.end = max(start)")]),
("d22f","C22",[(ZO,"            ch.measurement_tilt = self.header._comp_dict[\"zxy\"][\"ch\"].incl[1]","            ch.measurement_tilt = self.header._comp_dict[\"zxy\"][\"ch\"].azimuth[1]")]),
("d22g","C22",[(XC,"                mt_channel.positive.id = pid\n                mt_channel.negative.id = nid","                mt_channel.positive.id = nid\n                mt_channel.negative.id = pid")]),
("d22h","C22",[(DA,"                index_0 = self._index_dict[item[\"output\"].lower()]\n                index_1 = self._index_dict[item[\"input\"].lower()]","                index_0 = self._index_dict[item[\"input\"].lower()]\n                index_1 = self._index_dict[item[\"output\"].lower()]")]),
# C23
("d23a","C23",[(DM,"                \"positive.x2\",\n","                \"positive.x_2\",\n")]),
("d23b","C23",[(XC,"            for pos in [\"latitude\", \"longitude\", \"elevation\"]:\n                key = f\"location.{pos}\"","            for pos in [\"latitude\", \"longitude\", \"elev\"]:\n                key = f\"location.{pos}\"")]),
("d23c","C23",[(DM,"                    key = \"reflon\"","                    key = \"ref_lon\"")]),
("d23d","C16",[(DL,"fc_dec_obj.stft.recoloring = self.stft.recoloring","fc_dec_obj.stft.recolouring = self.stft.recoloring")]),
# C24
("d24a","C24",[(XC,"        if sensor_type.lower() == \"bartington\":","        if sensor_type.lower() == \"Bartington\":")]),
("d24b","C24",[(CW,"        elif combo == \"minimum\":\n            return np.min(weights, axis=0)","        elif combo == \"min\":\n            return np.min(weights, axis=0)")]),
("d24c","C24",[(XC,"        elif \":\" not in serial_numbers and \",\" in serial_numbers:","        elif \":\" in serial_numbers and \",\" in serial_numbers:")]),
("d24d","C24",[(XC,"            if len(description) > len(name):","            if len(description) > len(name) or description:")]),
("d24e","C24",[(DL,"            elif isinstance(item, ChannelWeightSpec):","            elif isinstance(item, dict):")]),
("d24f","C24",[(DM,"        elif \"h\" in channel.component:\n            for attr in","        elif \"e\" in channel.component and \"h\" in channel.component:\n            for attr in")]),
("d24g","C24",[(DA,"                except KeyError:\n                        pass\n".replace("                except","                    except"),"                    except KeyError:\n                        continue\n                    except LookupError:\n                        pass\n")]),
("d24h","C24",[(DM,"            if key.upper() == \"REFLON\":","            if key.upper() == \"reflon\":")]),
# C25
("d25a","C25",[(XC,"            msg = f\"Could not get dipole length from {description} got ValueError({error})\"","            msg = \"Could not get dipole length from {0} got ValueError({1})\".format(description)")]),
("d25b","C25",[(CW,"            raise ValueError(\"No weights have been set.\")","            logger.error(\"No weights have been set for {}.\")")]),
("d25c","C25",[(DL,"            msg = f\"{msg} FC Group: {fc_decimation.stft.window} \"\n            msg = f\"{msg} Processing Config  {self.stft.window}\"","            msg = f\" FC Group: {fc_decimation.stft.window} \"\n            msg = f\" Processing Config  {self.stft.window}\"")]),
("d25d","C25",[(STA,"            self.runs[run_obj.id].update(run_obj)\n            logger.debug(f\"Station {run_obj.id} already exists, updating metadata\")","            self.runs[run_obj.id].update\n            logger.debug(f\"Station {run_obj.id} already exists, updating metadata\")")]),
("d25e","C25",[(DM,"                line = line.strip()\n                if len(line) > 2:","                line.strip()\n                if len(line) > 2:")]),
("d25f","C25",[(STA,"            raise TypeError(\"\\n\".join(fails))\n        return runs","            \"\\n\".join(fails)\n        return runs")]),
# C04..C11
("d04a","C04",[(STA,"        return sorted(set([cc for cc in ch_list if cc is not None]))","        return list({cc: None for cc in set(ch_list) if cc is not None})")]),
("d05a","C05",[(ZO,"        with self.fn.open(\"r\", encoding=\"utf-8\") as fid:\n            lines = fid.readlines()","        lines = self.fn.read_text().splitlines(True)")]),
("d08a","C08",[(XC,"        try:\n            return float(dipole[0])\n        except ValueError as error:","        try:\n            return float(dipole[0])\n        except BaseException as error:")]),
("d10a","C10",[(ZO,"        with self.fn.open(\"r\", encoding=\"utf-8\") as fid:\n            lines = fid.readlines()","        fid = self.fn.open(\"r\", encoding=\"utf-8\")\n        lines = fid.readlines()\n        fid.close()")]),
("d09a","C09",[(DL,"        if not isinstance(band, (Band, dict)):\n            raise TypeError(","        if __debug__ and not isinstance(band, (Band, dict)):\n            raise TypeError(")]),
]
KEEP=[]
