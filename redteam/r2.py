CR="timeseries/filters/channel_response.py"; FIR="timeseries/filters/fir_filter.py"; FAP="timeseries/filters/frequency_response_table_filter.py"; FB="timeseries/filters/filter_base.py"
CH="timeseries/channel.py"; MD="base/metadata.py"; HE="base/helpers.py"; VA="utils/validators.py"; TO="transfer_functions/io/tools.py"
EX="timeseries/experiment.py"; RUN="timeseries/run.py"; STA="timeseries/station.py"; SUR="timeseries/survey.py"; EDI="transfer_functions/io/edi/edi.py"
EM="transfer_functions/io/emtfxml/emtfxml.py"; ZM="transfer_functions/io/zfiles/zmm.py"; ZO="transfer_functions/io/zonge/zonge.py"; JF="transfer_functions/io/jfiles/jfile.py"
MT="common/mttime.py"; LI="common/list_dict.py"; CO="transfer_functions/core.py"
BUGS=[
# C12
("c12a","C12",[(CR,"            filters_list = deepcopy(self.filters_list)\n        else:","            filters_list = self.filters_list\n            filters_list.reverse()\n        else:")]),
("c12b","C12",[(FIR,"        h /= self.corrective_scalar\n        return h","        h /= self.corrective_scalar\n        self.gain_frequency = float(frequencies[0])\n        return h")]),
("c12c","C12",[(FB,"        f = np.array(frequencies)\n","        f = np.asarray(frequencies)\n        f.sort()\n")]),
("c12d","C12",[(FIR,"            return np.hstack((self.coefficients, np.flipud(self.coefficients)))","            self.coefficients *= 1.0\n            return np.hstack((self.coefficients, np.flipud(self.coefficients)))")]),
("c12e","C12",[(CR,"            result *= ff.complex_response(self.frequencies)","            ff.gain = abs(ff.gain)\n            result *= ff.complex_response(self.frequencies)")]),
("c12f","C12",[(STA,"        return sorted(set([cc for cc in ch_list if cc is not None]))","        self.channels_recorded.sort()\n        return sorted(set([cc for cc in ch_list if cc is not None]))")]),
("c12g","C12",[(STA,"            return self.runs[run_id]\n        logger.warning(f\"Could not find {run_id} in runs.\")","            run = self.runs[run_id]\n            run.update_time_period()\n            run.id = run_id.lower()\n            return run\n        logger.warning(f\"Could not find {run_id} in runs.\")")]),
("c12h","C12",[(LI,"    def values(self):\n","    def values(self):\n        if None in self._home:\n            self._home.pop(None)\n")]),
("c12i","C12",[(SUR,"        return self.stations.keys()","        self.stations.sort()\n        return self.stations.keys()")]),
("c12j","C12",[(MD,"                elif isinstance(value, list):\n                    v_list = []\n                    for obj in value:","                elif isinstance(value, list):\n                    v_list = []\n                    value.sort(key=str)\n                    for obj in value:")]),
("c12k","C12",[(MD,"    def __repr__(self) -> str:\n        return self.to_json()","    def __repr__(self) -> str:\n        self._fields = {}\n        object.__setattr__(self, 'comments', None)\n        return self.to_json()")]),
("c12l","C12",[(CO,"            for key, mkey in self._dataset_attr_dict.items():\n                obj, attr = mkey.split(\".\", 1)\n                value = getattr(self, obj).get_attr_from_name(attr)\n                ds.attrs[key] = value\n            return ds\n        return None\n\n    @residual_covariance.setter","            ds.data[np.isnan(ds.data)] = 0\n            return ds\n        return None\n\n    @residual_covariance.setter")]),
("c12m","C12",[(FAP,"        for f, a, p in zip(self.frequencies, self.amplitudes, self.phases):","        order = np.argsort(self.frequencies)\n        self.frequencies[:] = self.frequencies[order]\n        for f, a, p in zip(self.frequencies, self.amplitudes, self.phases):")]),
("c12n","C12",[(MT,"    def __eq__(","    def __hash__(self):\n        self.gps_time = False\n        return 1\n\n    def __eq__(")]),
("c12o","C12",[(FAP,"        if np.min(frequencies) < self.min_frequency:","        frequencies = np.asarray(frequencies)\n        frequencies[frequencies == 0] = self.min_frequency\n        if np.min(frequencies) < self.min_frequency:")]),
# C13
("c13a","C13",[(FAP,"        if np.min(frequencies) < self.min_frequency:","        frequencies = np.asarray(frequencies)\n        frequencies[frequencies == 0] = self.min_frequency\n        if np.min(frequencies) < self.min_frequency:")]),
("c13b","C13",[(RUN,"                if ch_type is None:\n                    ch_type = channel_obj[\"component\"][0]","                if ch_type is None:\n                    ch_type = channel_obj.setdefault('type', channel_obj[\"component\"][0])\n                    channel_obj['type'] = ch_type")]),
("c13c","C13",[(MD,"            meta_dict = helpers.flatten_dict(meta_dict)\n        # set","            meta_dict = helpers.flatten_dict(meta_dict)\n        # set") if False else (MD,"        keys = list(meta_dict.keys())\n        if len(keys) == 1:\n","        for k in list(meta_dict.keys()):\n            if k.startswith('_'):\n                del meta_dict[k]\n        keys = list(meta_dict.keys())\n        if len(keys) == 1:\n")]),
("c13d","C13",[(FAP,"            if value.max() > 1000 * np.pi / 2:","            if value.max() > 1000 * np.pi / 2:\n                value /= 1000\n                return value\n            if value.max() > 1000 * np.pi / 2:")]),
("c13e","C13",[(FB,"        if mapping is None:\n            mapping = cls().make_obspy_mapping()","        if mapping is None:\n            mapping = cls().make_obspy_mapping()\n        mapping.pop('amplitudes', None)")]),
("c13f","C13",[(STA,"                merged.merge(other.copy())","                other.runs.sort()\n                merged.merge(other.copy())")]),
("c13g","C13",[(LI,"        if isinstance(skip_keys, str):\n            skip_keys = [skip_keys]","        if isinstance(skip_keys, str):\n            skip_keys = [skip_keys]\n        skip_keys.append(None)")]),
("c13h","C13",[(CO,"        for key, value in kwargs.items():\n            setattr(self, key, value)\n\n        if not tf_set","        ch_dict = kwargs.get('channel_nomenclature')\n        if ch_dict:\n            ch_dict['isp'] = ch_dict.pop('inv', None)\n        for key, value in kwargs.items():\n            setattr(self, key, value)\n\n        if not tf_set")]),
("c13i","C13",[(TO,"    else:\n        return [\n            line.replace('\"', \"\")","    else:\n        for ii, line in enumerate(edi_lines):\n            edi_lines[ii] = line.strip()\n        return [\n            line.replace('\"', \"\")")]),
("c13j","C13",[(CR,"        if frequencies is not None:\n            self.frequencies = frequencies\n        # make filters list","        if frequencies is not None:\n            self.frequencies = frequencies\n        if filters_list is not None and not include_delay:\n            for f in list(filters_list):\n                if f.type == 'time delay':\n                    filters_list.remove(f)\n        # make filters list")]),
("c13k","C13",[(SUR,"        if self.has_station(station_obj.id):\n            self.stations","        station_obj.fdsn.network = self.fdsn.network\n        if self.has_station(station_obj.id):\n            self.stations")]),
# C14
("c14a","C14",[(FB,"def get_base_obspy_mapping():","_CACHE = {}\n\n\ndef _shared():\n    return _CACHE\n\n\ndef get_base_obspy_mapping():")]),
("c14b","C14",[(LI,"    def __init__(self","    def _k(self, acc=[]):\n        acc.append(1)\n        return acc\n\n    def __init__(self")]),
("c14c","C14",[(CR,"class ChannelResponse(FilterBase):\n","class ChannelResponse(FilterBase):\n    _seen = []\n\n    def mark(self, n):\n        type(self)._seen.append(n)\n\n")]),
("c14d","C14",[(STA,"            default_factory=ListDict,\n            description=\"List of runs","            default_factory=lambda _d=ListDict(): _d,\n            description=\"List of runs")]),
("c14e","C14",[(MD,"        return self._fields\n","        return pydantic_helpers._x(self)\n") if False else (MD,"        if not self._fields:\n            self._fields =","        if not type(self).__dict__.get('_fc'):\n            type(self)._fc = 1\n        if not self._fields:\n            self._fields =")]),
("c14f","C14",[(CO,"    def copy(self) -> Self:\n","    def _inh(self, other):\n        self._channel_nomenclature = other._channel_nomenclature\n\n    def copy(self) -> Self:\n")]),
("c14g","C14",[(CO,"from mt_metadata import DEFAULT_CHANNEL_NOMENCLATURE\n","from mt_metadata import DEFAULT_CHANNEL_NOMENCLATURE\n\n_N = DEFAULT_CHANNEL_NOMENCLATURE\n"),(CO,"    def copy(self) -> Self:\n","    def _up(self, **kw):\n        _N.update(kw)\n\n    def copy(self) -> Self:\n")]),
("c14h","C14",[(SUR,"    def merge(self","    def adopt(self, other):\n        self.filters = other.filters\n        self.stations = other.stations\n\n    def merge(self")]),
# C15
("c15a","C15",[(STA,"                merged = self.copy()\n                merged.merge(other.copy())\n                return merged","                merged = self\n                merged.merge(other.copy())\n                return merged")]),
("c15b","C15",[(STA,"                merged.merge(other.copy())\n","                merged.merge(other)\n")]),
("c15c","C15",[(LI,"            if hasattr(value, \"copy\"):\n                value = value.copy()\n            copied[key] = value\n","            copied[key] = value\n")]),
("c15d","C15",[(STA,"        if inplace:\n            self.runs = new_runs\n        else:\n            return new_runs","        self.runs = new_runs\n        if not inplace:\n            return new_runs")]),
("c15e","C15",[(MD,"            copied_obj = self.model_copy(update=update, deep=deep)","            copied_obj = self.model_copy(update=update)")]),
("c15f","C15",[(LI,"        if inplace:\n            self._home = od\n        else:\n            return od","        self._home = od\n        return od")]),
("c15g","C15",[(SUR,"                merged = self.copy()\n","                merged = self.copy(deep=False)\n")]),
("c15h","C15",[(SUR,"                merged.merge(other.copy())\n                return merged","                merged.merge(other.copy())\n                self.update_all()\n                return merged")]),
("c15i","C15",[(CO,"    def copy(self) -> Self:\n","    def copy(self) -> Self:\n        import copy as _c\n        return _c.copy(self)\n\n    def _o(self) -> Self:\n")]),
]
