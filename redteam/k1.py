"""Behaviour-preserving edits as a maintainer would make them."""
RUN="timeseries/run.py"; STA="timeseries/station.py"; LI="common/list_dict.py"; MD="base/metadata.py"
BUGS=[]
KEEP=[
("k01",[(RUN,'''            self.channels.extend(other.channels)
            self._update_channels_recorded()
            self.update_time_period()
        else:
            msg = f"Can only merge Run objects, not {type(other)}"
            logger.error(msg)
            raise TypeError(msg)
''','''            self._absorb_channels(other)
        else:
            msg = f"Can only merge Run objects, not {type(other)}"
            logger.error(msg)
            raise TypeError(msg)

    def _absorb_channels(self, other: Run) -> None:
        """Take over the channels of another run and refresh everything derived from them."""
        self.channels.extend(other.channels)
        self._update_channels_recorded()
        self.update_time_period()
''')]),
("k02",[(RUN,'''        if isinstance(other, Run):
            if not inplace:
                merged = self.copy()
                merged.merge(other.copy(), inplace=True)
                return merged
            self.channels.extend(other.channels)
            self._update_channels_recorded()
            self.update_time_period()
        else:
            msg = f"Can only merge Run objects, not {type(other)}"
            logger.error(msg)
            raise TypeError(msg)
''','''        if not isinstance(other, Run):
            msg = f"Can only merge Run objects, not {type(other)}"
            logger.error(msg)
            raise TypeError(msg)

        target, source = (self, other) if inplace else (self.copy(), other.copy())
        target.channels.extend(source.channels)
        target._update_channels_recorded()
        target.update_time_period()
        if not inplace:
            return target
''')]),
("k03",[(RUN,'''        aux_components = [
            ch.component
            for ch in self.channels
            if isinstance(ch, Auxiliary)
            and ch.component not in [None, "auxiliary_default"]
        ]
        elec_components = [
            ch.component
            for ch in self.channels
            if isinstance(ch, Electric) and ch.component not in [None, "e_default"]
        ]
        mag_components = [
            ch.component
            for ch in self.channels
            if isinstance(ch, Magnetic) and ch.component not in [None, "h_default"]
        ]
        self.channels_recorded_auxiliary = sorted(aux_components)
        self.channels_recorded_electric = sorted(elec_components)
        self.channels_recorded_magnetic = sorted(mag_components)
''','''        aux_components, elec_components, mag_components = [], [], []
        for ch in self.channels:
            component = ch.component
            if component is None:
                continue
            if isinstance(ch, Auxiliary):
                if component != "auxiliary_default":
                    aux_components.append(component)
            elif isinstance(ch, Electric):
                if component != "e_default":
                    elec_components.append(component)
            elif isinstance(ch, Magnetic):
                if component != "h_default":
                    mag_components.append(component)
        self.channels_recorded_auxiliary = sorted(aux_components)
        self.channels_recorded_electric = sorted(elec_components)
        self.channels_recorded_magnetic = sorted(mag_components)
''')]),
("k04",[(RUN,'''        aux_components = [
            ch.component
            for ch in self.channels
            if isinstance(ch, Auxiliary)
            and ch.component not in [None, "auxiliary_default"]
        ]
        elec_components = [
            ch.component
            for ch in self.channels
            if isinstance(ch, Electric) and ch.component not in [None, "e_default"]
        ]
        mag_components = [
            ch.component
            for ch in self.channels
            if isinstance(ch, Magnetic) and ch.component not in [None, "h_default"]
        ]
        self.channels_recorded_auxiliary = sorted(aux_components)
        self.channels_recorded_electric = sorted(elec_components)
        self.channels_recorded_magnetic = sorted(mag_components)
''','''        self.channels_recorded_auxiliary = self._components_of(Auxiliary, "auxiliary_default")
        self.channels_recorded_electric = self._components_of(Electric, "e_default")
        self.channels_recorded_magnetic = self._components_of(Magnetic, "h_default")

    def _components_of(self, channel_class, placeholder: str) -> list[str]:
        return sorted(
            ch.component
            for ch in self.channels
            if isinstance(ch, channel_class) and ch.component not in (None, placeholder)
        )
''')]),
("k05",[(RUN,'''        for electric in list(self.channels_recorded_electric):
            if electric not in self.channels.keys():
                self.add_channel(Electric(component=electric))  # type: ignore
        for magnetic in list(self.channels_recorded_magnetic):
            if magnetic not in self.channels.keys():
                self.add_channel(Magnetic(component=magnetic))  # type: ignore
        for auxiliary in list(self.channels_recorded_auxiliary):
            if auxiliary not in self.channels.keys():
                self.add_channel(Auxiliary(component=auxiliary))  # type: ignore
        return self
''','''        recorded = (
            (list(self.channels_recorded_electric), Electric),
            (list(self.channels_recorded_magnetic), Magnetic),
            (list(self.channels_recorded_auxiliary), Auxiliary),
        )
        for components, channel_class in recorded:
            for component in components:
                if component not in self.channels.keys():
                    self.add_channel(channel_class(component=component))
        return self
''')]),
("k06",[(RUN,'''        fails = []
        channels = ListDict()
        if isinstance(value, (dict, ListDict, OrderedDict)):
            value_list = value.values()

        elif isinstance(value, (list, tuple)):
            value_list = value

        for ii, channel in enumerate(value_list):
            try:
                channels.append(cls._get_correct_channel_type(channel))
            except KeyError as error:
                msg = f"Could not find type in {channel}"
                logger.error(msg)
                logger.exception(error)
                fails.append(msg)

        if len(fails) > 0:
            raise TypeError("\\n".join(fails))

        return channels
''','''        problems = []
        result = ListDict()
        entries = value if isinstance(value, (list, tuple)) else value.values()
        for entry in entries:
            try:
                converted = cls._get_correct_channel_type(entry)
            except KeyError as error:
                problem = f"Could not find type in {entry}"
                logger.error(problem)
                logger.exception(error)
                problems.append(problem)
            else:
                result.append(converted)

        if problems:
            raise TypeError("\\n".join(problems))

        return result
''')]),
("k07",[(RUN,'''        if component in [cc for cc in self.channels_recorded_all]:
            return True
        return False
''','''        return component in self.channels_recorded_all
''')]),
("k08",[(RUN,'''        for k, v in other.to_dict(single=True).items():
            if hasattr(v, "size"):
                if v.size > 0:
                    self.update_attribute(k, v)
            else:
                if v not in [None, 0.0, [], "", "1980-01-01T00:00:00+00:00"]:
                    self.update_attribute(k, v)
''','''        empty_values = [None, 0.0, [], "", "1980-01-01T00:00:00+00:00"]
        for name, new_value in other.to_dict(single=True).items():
            has_content = (
                new_value.size > 0
                if hasattr(new_value, "size")
                else new_value not in empty_values
            )
            if has_content:
                self.update_attribute(name, new_value)
''')]),
("k09",[(STA,'''        fails = []
        runs = ListDict()
        if isinstance(value, (dict, ListDict, OrderedDict)):
            value_list = value.values()

        elif isinstance(value, (list, tuple)):
            value_list = value

''','''        fails = []
        runs = ListDict()
        value_list = (
            value.values()
            if isinstance(value, (dict, ListDict, OrderedDict))
            else value
        )

''')]),
("k10",[(STA,'''            if isinstance(run_entry, (dict, OrderedDict)):
                try:
                    run = Run()
                    run.from_dict(run_entry)
                    runs.append(run)
                except KeyError:
                    msg = f"Item {ii} is not type(Run); type={type(run_entry)}"
                    fails.append(msg)
                    logger.error(msg)
            elif not isinstance(run_entry, (Run)):
                msg = f"Item {ii} is not type(Run); type={type(run_entry)}"
                fails.append(msg)
                logger.error(msg)
            else:
                runs.append(run_entry)
''','''            msg = f"Item {ii} is not type(Run); type={type(run_entry)}"
            if isinstance(run_entry, Run):
                runs.append(run_entry)
                continue
            if not isinstance(run_entry, (dict, OrderedDict)):
                fails.append(msg)
                logger.error(msg)
                continue
            try:
                run = Run()
                run.from_dict(run_entry)
                runs.append(run)
            except KeyError:
                fails.append(msg)
                logger.error(msg)
''')]),
("k11",[(STA,'''        if run_id in self.run_list:
            return True
        return False
''','''        return run_id in self.run_list
'''),(STA,'''        if self.has_run(run_id):
            return self.run_list.index(run_id)
        return None
''','''        return self.run_list.index(run_id) if self.has_run(run_id) else None
''')]),
("k12",[(STA,'''        ch_list = []
        for run in self.runs:
            ch_list += run.channels_recorded_all
''','''        ch_list = [cc for run in self.runs for cc in run.channels_recorded_all]
''')]),
("k13",[(STA,'''            if start:
                if self.time_period.start == "1980-01-01T00:00:00+00:00":
                    self.time_period.start = min(start)
                else:
                    if self.time_period.start > min(start):
                        self.time_period.start = min(start)
''','''            if start:
                first = min(start)
                if (
                    self.time_period.start == "1980-01-01T00:00:00+00:00"
                    or self.time_period.start > first
                ):
                    self.time_period.start = first
'''),(STA,'''            if end:
                if self.time_period.end == "1980-01-01T00:00:00+00:00":
                    self.time_period.end = max(end)
                else:
                    if self.time_period.end < max(end):
                        self.time_period.end = max(end)
''','''            if end:
                last = max(end)
                if (
                    self.time_period.end == "1980-01-01T00:00:00+00:00"
                    or self.time_period.end < last
                ):
                    self.time_period.end = last
''')]),
("k14",[(STA,'''        run_ids = []
        run_starts = []
        for run_key, run_obj in self.runs.items():
            run_ids.append(run_key)
            run_starts.append(run_obj.time_period.start.split("+")[0])
''','''        run_ids = [run_key for run_key, _ in self.runs.items()]
        run_starts = [
            run_obj.time_period.start.split("+")[0] for _, run_obj in self.runs.items()
        ]
'''),(STA,'''        new_runs = ListDict()
        for ii in index:
            new_runs[run_ids[ii]] = self.runs[run_ids[ii]]

        if inplace:
            self.runs = new_runs
        else:
            return new_runs
''','''        ordered = ListDict()
        for position in index:
            run_id = run_ids[position]
            ordered[run_id] = self.runs[run_id]

        if not inplace:
            return ordered
        self.runs = ordered
''')]),
("k15",[(STA,'''        if self.has_run(run_obj.id):
            self.runs[run_obj.id].update(run_obj)
''','''        known = self.get_run(run_obj.id) if self.has_run(run_obj.id) else None
        if known is not None:
            known.update(run_obj)
''')]),
("k16",[(LI,'''        if hasattr(obj, "id"):
            return obj.id
        elif hasattr(obj, "component"):
            return obj.component
        else:
            raise TypeError("could not identify an appropriate key from object")
''','''        for name in ("id", "component"):
            if hasattr(obj, name):
                return getattr(obj, name)
        raise TypeError("could not identify an appropriate key from object")
''')]),
("k17",[(LI,'''        if key_slice.start is None or isinstance(key_slice.start, int):
            start = key_slice.start
        elif isinstance(key_slice.start, str):
            start = self._get_index_from_key(key_slice.start)
        else:
            raise TypeError("Slice start must be type int or str")

        if key_slice.stop is None or isinstance(key_slice.stop, int):
            stop = key_slice.stop
        elif isinstance(key_slice.stop, str):
            stop = self._get_index_from_key(key_slice.stop)
        else:
            raise TypeError("Slice stop must be type int or str")

        return slice(start, stop, key_slice.step)
''','''        start = self._slice_bound(key_slice.start, "start")
        stop = self._slice_bound(key_slice.stop, "stop")

        return slice(start, stop, key_slice.step)

    def _slice_bound(self, bound, name):
        if bound is None or isinstance(bound, int):
            return bound
        if isinstance(bound, str):
            return self._get_index_from_key(bound)
        raise TypeError(f"Slice {name} must be type int or str")
''')]),
("k18",[(LI,'''        if isinstance(key, str):
            self._home.__delitem__(key)

        elif isinstance(key, int):
            key = self._get_key_from_index(key)
            self._home.__delitem__(key)
        elif key is None:
            try:
                self._home.__delitem__(key)
            except KeyError:
                raise (KeyError("Could not find None in keys."))

        else:
            raise TypeError("could not identify an appropriate key from object")
''','''        if isinstance(key, int):
            key = self._get_key_from_index(key)
        elif key is not None and not isinstance(key, str):
            raise TypeError("could not identify an appropriate key from object")

        if key is None and key not in self._home:
            raise KeyError("Could not find None in keys.")
        del self._home[key]
''')]),
("k19",[(LI,'''            for key, value in other.items():
                if key in skip_keys:
                    continue
                self._home[key] = value
''','''            self._home.update(
                {key: value for key, value in other.items() if key not in skip_keys}
            )
''')]),
("k20",[(LI,'''        od = OrderedDict()
        for key in sorted(self._home.keys()):
            od[key] = self._home[key]

        if inplace:
            self._home = od
        else:
            return od
''','''        od = OrderedDict((key, self._home[key]) for key in sorted(self._home))
        if not inplace:
            return od
        self._home = od
''')]),
("k21",[(LI,'''        copied = type(self)()
        for key, value in self.items():
            if hasattr(value, "copy"):
                value = value.copy()
            copied[key] = value

        return copied
''','''        duplicate = type(self)()
        for key, value in self.items():
            duplicate[key] = value.copy() if hasattr(value, "copy") else value
        return duplicate
''')]),
("k22",[(MD,'''            skip_key_bool = False
            for skip_key in self._skip_equals:
                if skip_key in key:
                    skip_key_bool = True
            if skip_key_bool:
                continue
''','''            if any(skip_key in key for skip_key in self._skip_equals):
                continue
''')]),
("k23",[(MD,'''        if isinstance(other, MetadataBase):
            self.update(other)
        elif isinstance(other, dict):
            self.from_dict(other)
        elif isinstance(other, str):
            if other.lower() in NULL_VALUES:
                return
            self.from_json(other)
        elif isinstance(other, pd.Series):
            self.from_series(other)
        elif isinstance(other, et.Element):
            self.from_xml(other)
        else:
            msg''','''        loaders = (
            (MetadataBase, self.update),
            (dict, self.from_dict),
            (str, self.from_json),
            (pd.Series, self.from_series),
            (et.Element, self.from_xml),
        )
        if isinstance(other, str) and other.lower() in NULL_VALUES:
            return
        for kind, loader in loaders:
            if isinstance(other, kind):
                loader(other)
                break
        else:
            msg''')]),
("k24",[(MD,'''        required_fields = []
        for name, field_dict in self.get_all_fields().items():
            required = field_dict.get("required", False)
            if required:
                required_fields.append(name)
        return required_fields
''','''        return [
            name
            for name, field_dict in self.get_all_fields().items()
            if field_dict.get("required", False)
        ]
''')]),
("k25",[(MD,'''                elif isinstance(value, dict):
                    v_dict = {}
                    for key, obj in value.items():
                        if hasattr(obj, "to_dict"):
                            v_dict[key] = obj.to_dict(nested=nested, required=required)
                        elif isinstance(obj, Enum):
                            v_dict[key] = obj.value
                        else:
                            v_dict[key] = obj
                    value = v_dict
                elif isinstance(value, list):
                    v_list = []
                    for obj in value:
                        if hasattr(obj, "to_dict"):
                            v_list.append(obj.to_dict(nested=nested, required=required))
                        elif isinstance(obj, Enum):
                            v_list.append(obj.value)
                        else:
                            v_list.append(obj)
                    value = v_list
''','''                elif isinstance(value, dict):
                    value = {
                        key: self._plain_entry(obj, nested, required)
                        for key, obj in value.items()
                    }
                elif isinstance(value, list):
                    value = [self._plain_entry(obj, nested, required) for obj in value]
'''),(MD,'''    def from_dict(self, meta_dict: dict, skip_none: bool = False) -> None:
''','''    @staticmethod
    def _plain_entry(obj, nested, required):
        if hasattr(obj, "to_dict"):
            return obj.to_dict(nested=nested, required=required)
        if isinstance(obj, Enum):
            return obj.value
        return obj

    def from_dict(self, meta_dict: dict, skip_none: bool = False) -> None:
''')]),
("k26",[(MD,'''        parts = attr_name.split(".")
        current = self

''','''        *owners, last = attr_name.split(".")
        parts = owners + [last]
        current = self

''')]),
("k27",[(MD,'''        if "." not in attr_name:
            # Directly set the attribute
            setattr(self, attr_name, attr_value)
            return
''','''        owner_path, _, leaf = attr_name.rpartition(".")
        if not owner_path:
            setattr(self, leaf, attr_value)
            return
''')]),
]
