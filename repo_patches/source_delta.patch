From 05e0144234e7610f132f461076c99660b9419c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 01/42] fix: never evaluate filter strings as Python code

---
 mt_metadata/timeseries/channel.py | 58 +++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index c72d19b..b397a1a 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -35,6 +35,45 @@ from mt_metadata.utils.validators import validate_name
 # =====================================================
 
 
+def _literal_with_ordered_dict(node):
+    """
+    Value of a literal expression that may also contain `OrderedDict(...)` calls
+    and the JSON constants true, false and null.
+
+    The text is never executed, anything else raises a ValueError.
+    """
+    import ast
+    from collections import OrderedDict
+
+    if isinstance(node, (ast.List, ast.Tuple)):
+        items = [_literal_with_ordered_dict(item) for item in node.elts]
+        return items if isinstance(node, ast.List) else tuple(items)
+    if isinstance(node, ast.Dict) and None not in node.keys:
+        return {
+            _literal_with_ordered_dict(key): _literal_with_ordered_dict(value)
+            for key, value in zip(node.keys, node.values)
+        }
+    if isinstance(node, ast.Name):
+        constants = {"true": True, "false": False, "null": None}
+        if node.id in constants:
+            return constants[node.id]
+    if (
+        isinstance(node, ast.Call)
+        and isinstance(node.func, ast.Name)
+        and node.func.id == "OrderedDict"
+        and len(node.args) <= 1
+        and all(keyword.arg for keyword in node.keywords)
+    ):
+        return OrderedDict(
+            *[_literal_with_ordered_dict(arg) for arg in node.args],
+            **{
+                keyword.arg: _literal_with_ordered_dict(keyword.value)
+                for keyword in node.keywords
+            },
+        )
+    return ast.literal_eval(node)
+
+
 # this is a channel base for channels that have multiple sensors and locations like an
 # electric dipole.
 class ChannelBase(MetadataBase):
@@ -325,7 +364,6 @@ class ChannelBase(MetadataBase):
             import ast
             import json
             import re
-            from collections import OrderedDict
 
             # Handle string representation of list of dicts
             if value.strip().startswith("[") and value.strip().endswith("]"):
@@ -338,23 +376,13 @@ class ChannelBase(MetadataBase):
                         parsed_data = ast.literal_eval(value)
                     except (ValueError, SyntaxError):
                         try:
-                            # Handle OrderedDict function calls with eval and safe namespace
+                            # Handle OrderedDict function calls and JSON-style constants
                             # Clean up newlines between dictionary items by adding commas
                             cleaned = re.sub(r"}\s+\{", "}, {", value)
 
-                            # Use eval with a restricted namespace
-                            safe_namespace = {
-                                "__builtins__": {},
-                                "OrderedDict": OrderedDict,
-                                "True": True,
-                                "False": False,
-                                "None": None,
-                                "true": True,  # JSON-style booleans
-                                "false": False,
-                                "null": None,
-                            }
-
-                            parsed_data = eval(cleaned, safe_namespace)
+                            parsed_data = _literal_with_ordered_dict(
+                                ast.parse(cleaned.strip(), mode="eval").body
+                            )
                         except Exception as e:
                             logger.warning(f"Failed to parse filters string: {e}")
                             return []
-- 
2.43.0


From e24246d77096b23d4bd78fd230d9d6cbad60edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 02/42] fix: read and write text files as UTF-8 whatever the
 host locale

---
 mt_metadata/base/metadata.py                         |  4 ++--
 mt_metadata/base/schema.py                           |  8 ++++----
 mt_metadata/common/enumerations.py                   |  2 +-
 mt_metadata/timeseries/experiment.py                 |  8 ++++----
 mt_metadata/transfer_functions/io/edi/edi.py         |  4 ++--
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py |  2 +-
 mt_metadata/transfer_functions/io/jfiles/jfile.py    |  2 +-
 mt_metadata/transfer_functions/io/zfiles/zmm.py      |  6 +++---
 mt_metadata/transfer_functions/io/zonge/zonge.py     |  4 ++--
 mt_metadata/utils/converters.py                      | 10 +++++-----
 10 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 1c88e17..7e135c1 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1259,14 +1259,14 @@ class MetadataBase(DotNotationBaseModel):
             try:
                 json_path = Path(json_str)
                 if json_path.exists():
-                    with open(json_path, "r") as fid:
+                    with open(json_path, "r", encoding="utf-8") as fid:
                         json_dict = json.load(fid)
             except OSError:
                 pass
             json_dict = json.loads(json_str)
         elif isinstance(json_str, Path):
             if json_str.exists():
-                with open(json_str, "r") as fid:
+                with open(json_str, "r", encoding="utf-8") as fid:
                     json_dict = json.load(fid)
         elif not isinstance(json_str, (str, Path)):
             msg = f"Input must be valid JSON string not {type(json_str)}"
diff --git a/mt_metadata/base/schema.py b/mt_metadata/base/schema.py
index e4c7f37..479bf18 100644
--- a/mt_metadata/base/schema.py
+++ b/mt_metadata/base/schema.py
@@ -272,7 +272,7 @@ class BaseDict(MutableMapping):
             logger.error(msg)
             raise MTSchemaError(msg)
 
-        with open(csv_fn, "r") as fid:
+        with open(csv_fn, "r", encoding="utf-8") as fid:
             logger.debug(f"Reading schema CSV {csv_fn}")
             lines = fid.readlines()
 
@@ -333,7 +333,7 @@ class BaseDict(MutableMapping):
                     line.append("{0}".format(self[key][rkey]))
             lines.append(",".join(line))
 
-        with csv_fn.open("w") as fid:
+        with csv_fn.open("w", encoding="utf-8") as fid:
             fid.write("\n".join(lines))
         logger.info("Wrote dictionary to {0}".format(csv_fn))
         return csv_fn
@@ -358,7 +358,7 @@ class BaseDict(MutableMapping):
         json_fn = Path(json_fn)
 
         json_dict = dict([(k, v) for k, v in self.items() if k not in ["logger"]])
-        with open(json_fn, "w") as fid:
+        with open(json_fn, "w", encoding="utf-8") as fid:
             json.dump(json_dict, fid, cls=NumpyEncoder, indent=indent)
 
         return json_fn
@@ -384,7 +384,7 @@ class BaseDict(MutableMapping):
             logger.error(msg)
             MTSchemaError(msg)
 
-        with open(json_fn, "r") as fid:
+        with open(json_fn, "r", encoding="utf-8") as fid:
             json_dict = json.load(fid)
 
         valid_dict = {}
diff --git a/mt_metadata/common/enumerations.py b/mt_metadata/common/enumerations.py
index c0df891..e4fad02 100644
--- a/mt_metadata/common/enumerations.py
+++ b/mt_metadata/common/enumerations.py
@@ -215,7 +215,7 @@ class LicenseEnumMeta(EnumMeta):
 
         # Load the licenses JSON file
         filename = Path(__file__).parent.parent.joinpath("data", "licenses.json")
-        with open(filename, "r") as fid:
+        with open(filename, "r", encoding="utf-8") as fid:
             licenses = json.load(fid)
 
         # Add base licenses
diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 976ec0a..8b6086e 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -325,7 +325,7 @@ class Experiment(MetadataBase):
         """
 
         if fn is not None:
-            with open(fn, "w") as fid:
+            with open(fn, "w", encoding="utf-8") as fid:
                 json.dump(
                     self.to_dict(nested=nested, required=required),
                     fid,
@@ -352,14 +352,14 @@ class Experiment(MetadataBase):
             try:
                 json_path = Path(json_str)
                 if json_path.exists():
-                    with open(json_path, "r") as fid:
+                    with open(json_path, "r", encoding="utf-8") as fid:
                         json_dict = json.load(fid)
             except OSError:
                 pass
             json_dict = json.loads(json_str)
         elif isinstance(json_str, Path):
             if json_str.exists():
-                with open(json_str, "r") as fid:
+                with open(json_str, "r", encoding="utf-8") as fid:
                     json_dict = json.load(fid)
         elif not isinstance(json_str, (str, Path)):
             msg = "Input must be valid JSON string not %"
@@ -428,7 +428,7 @@ class Experiment(MetadataBase):
             experiment_element.append(survey_element)
 
         if fn:
-            with open(fn, "w") as fid:
+            with open(fn, "w", encoding="utf-8") as fid:
                 fid.write(helpers.element_to_string(experiment_element))
         return experiment_element
 
diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index e0f9d26..e3dedcb 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -303,7 +303,7 @@ class EDI:
             msg = f"Cannot find EDI file: {self.fn}"
             self.logger.error(msg)
             raise IOError(msg)
-        with open(self.fn, "r") as fid:
+        with open(self.fn, "r", encoding="utf-8") as fid:
             self._edi_lines = _validate_edi_lines(fid.readlines())
         self.Header.read_header(self._edi_lines)
         self.Info.read_info(self._edi_lines)
@@ -844,7 +844,7 @@ class EDI:
             + [">END"]
         )
 
-        with open(new_edi_fn, "w") as fid:
+        with open(new_edi_fn, "w", encoding="utf-8") as fid:
             fid.write("".join(edi_lines))
         self.fn = new_edi_fn
         return new_edi_fn
diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index fa0566c..378f9b6 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -410,7 +410,7 @@ class EMTFXML:
 
         emtf_element = emtf_helpers._remove_null_values(emtf_element)
 
-        with open(fn, "w") as fid:
+        with open(fn, "w", encoding="utf-8") as fid:
             fid.write(helpers.element_to_string(emtf_element))
 
         self.fn = fn
diff --git a/mt_metadata/transfer_functions/io/jfiles/jfile.py b/mt_metadata/transfer_functions/io/jfiles/jfile.py
index c049d0d..d825310 100644
--- a/mt_metadata/transfer_functions/io/jfiles/jfile.py
+++ b/mt_metadata/transfer_functions/io/jfiles/jfile.py
@@ -137,7 +137,7 @@ class JFile:
                 logger.error(msg)
                 raise NameError(msg)
 
-        with open(str(self.fn), "r", errors="replace") as fid:
+        with open(str(self.fn), "r", encoding="utf-8", errors="replace") as fid:
             j_lines = fid.readlines()
 
         for variable in ["lat", "lon", "elev"]:
diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index ac5ed6b..62b280a 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -124,7 +124,7 @@ class ZMMHeader(object):
 
         if fn is not None:
             self.fn = fn
-        with open(self.fn, "r") as fid:
+        with open(self.fn, "r", encoding="utf-8") as fid:
             line = fid.readline()
 
             self._header_count = 0
@@ -733,7 +733,7 @@ class ZMM(ZMMHeader):
                     ].data
                     line += f"{tf_element.real:>12.4E}{tf_element.imag:>12.4E}"
                 lines += [line]
-        with open(self.fn, "w") as fid:
+        with open(self.fn, "w", encoding="utf-8") as fid:
             fid.write("\n".join(lines))
         return self.fn
 
@@ -742,7 +742,7 @@ class ZMM(ZMMHeader):
         split file into period blocks
         """
 
-        with open(self.fn, "r") as fid:
+        with open(self.fn, "r", encoding="utf-8") as fid:
             fn_str = fid.read()
         period_strings = fn_str.lower().split("period")
         period_blocks = []
diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 02ee8fb..9ffe968 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -136,7 +136,7 @@ class ZongeMTAvg:
         if self.fn is None or not self.fn.exists():
             raise FileNotFoundError(f"File not found: {self.fn}")
 
-        with self.fn.open("r") as fid:
+        with self.fn.open("r", encoding="utf-8") as fid:
             lines = fid.readlines()
 
         # read header
@@ -669,5 +669,5 @@ class ZongeMTAvg:
         if self.fn is None:
             raise ValueError("No filename specified for writing")
 
-        with self.fn.open("w") as fid:
+        with self.fn.open("w", encoding="utf-8") as fid:
             fid.write("\n".join(header_lines))
diff --git a/mt_metadata/utils/converters.py b/mt_metadata/utils/converters.py
index 83f4fcf..5a546d8 100644
--- a/mt_metadata/utils/converters.py
+++ b/mt_metadata/utils/converters.py
@@ -65,7 +65,7 @@ def load_json(filename: Union[str, Path]) -> Dict[str, Any]:
     Returns:
         Dict[str, Any]: The contents of the JSON file as a dictionary.
     """
-    with open(filename, "r") as f:
+    with open(filename, "r", encoding="utf-8") as f:
         data = json.load(f)
     return data
 
@@ -78,7 +78,7 @@ def write_json(filename: Union[str, Path], data: Dict[str, Any]) -> None:
         filename (Union[str, Path]): The path to the JSON file.
         data (Dict[str, Any]): The data to write to the file.
     """
-    with open(filename, "w") as f:
+    with open(filename, "w", encoding="utf-8") as f:
         json.dump(data, f, indent=4)
 
 
@@ -367,7 +367,7 @@ def generate_pydantic_basemodel(json_schema_filename: Union[str, Path]) -> str:
             f"{json_schema_filename} is not a json file. Please provide a json file."
         )
 
-    with open(json_schema_filename, "r") as fid:
+    with open(json_schema_filename, "r", encoding="utf-8") as fid:
         schema = json.load(fid)
 
     new_filename = get_new_basemodel_filename(json_schema_filename, MTMETADATA_SAVEPATH)
@@ -641,7 +641,7 @@ def clean_and_format_code(code_str: str, filename: str | Path | None = None) ->
 
     # Write the formatted code back to the file
     if filename is not None:
-        with open(filename, "w") as f:
+        with open(filename, "w", encoding="utf-8") as f:
             f.write(code_str)
 
     return code_str
@@ -660,7 +660,7 @@ def reformat(filename: str | Path) -> str:
     if not filename.exists():
         raise FileNotFoundError(f"{filename} does not exist.")
 
-    with open(filename, "r") as f:
+    with open(filename, "r", encoding="utf-8") as f:
         code_str = f.read()
 
     # Clean and format the code
-- 
2.43.0


From a51165c71490814a081edd3aeb31db8efdb4ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 03/42] fix: let KeyboardInterrupt and SystemExit propagate

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 6 +++---
 mt_metadata/transfer_functions/io/tools.py           | 2 +-
 mt_metadata/utils/summarize.py                       | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 378f9b6..f368704 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -788,7 +788,7 @@ class EMTFXML:
                         self.field_notes.run_list[0].update_attribute(key, value)
                         key = None
                         value = None
-                    except:
+                    except Exception:
                         pass
 
                 elif "fieldnotes" in key and "dataquality" in key:
@@ -806,7 +806,7 @@ class EMTFXML:
                         obj, attr_key = key.split(".", 1)
                         try:
                             getattr(self, obj).update_attribute(attr_key, value)
-                        except:
+                        except Exception:
                             logger.warning(f"Cannot set attribute {key}.")
                     elif key == "description":
                         # Handle description as direct attribute on the EMTFXML object
@@ -1437,7 +1437,7 @@ class EMTFXML:
                             key, value = comment.split(":", 1)
                             try:
                                 fn.update_attribute(key.strip(), value.strip())
-                            except:
+                            except Exception:
                                 raise AttributeError(f"Cannot set attribute {key}.")
 
             for comp in ["hx", "hy", "hz"]:
diff --git a/mt_metadata/transfer_functions/io/tools.py b/mt_metadata/transfer_functions/io/tools.py
index 943015d..1a4cde7 100644
--- a/mt_metadata/transfer_functions/io/tools.py
+++ b/mt_metadata/transfer_functions/io/tools.py
@@ -205,7 +205,7 @@ def get_nm_elev(latitude, longitude):
     # call the url and get the response
     try:
         response = url_request.urlopen(nm_url)
-    except:
+    except Exception:
         logger.error("Could not connect to internet to get elevation data.")
         return 0.0
 
diff --git a/mt_metadata/utils/summarize.py b/mt_metadata/utils/summarize.py
index 6146c66..6ff7396 100644
--- a/mt_metadata/utils/summarize.py
+++ b/mt_metadata/utils/summarize.py
@@ -265,7 +265,7 @@ def _get_field_default(field_info):
                 return str(default_val)
             else:
                 return str(type(default_val).__name__)
-        except:
+        except Exception:
             return ""
     return ""
 
-- 
2.43.0


From e7dac11d161627555172bfbef436ed5058c545c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 04/42] fix: close the elevation service response

---
 mt_metadata/transfer_functions/io/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/tools.py b/mt_metadata/transfer_functions/io/tools.py
index 1a4cde7..564be74 100644
--- a/mt_metadata/transfer_functions/io/tools.py
+++ b/mt_metadata/transfer_functions/io/tools.py
@@ -11,6 +11,7 @@ import json
 # imports
 # =============================================================================
 import urllib.request as url_request
+from contextlib import closing
 
 from loguru import logger
 
@@ -212,7 +213,8 @@ def get_nm_elev(latitude, longitude):
     # read the xml response and convert to a float
     try:
         # unpack the response to a dictionary
-        info = json.loads(response.read())
+        with closing(response):
+            info = json.loads(response.read())
 
     except json.JSONDecodeError:
         logger.error(
-- 
2.43.0


From 9d40697e79fc08b3a6867c14f91467e3109065b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 05/42] fix: keep consistency checks active under python -O

---
 mt_metadata/features/coherence.py             |  8 +--
 .../processing/aurora/decimation_level.py     | 64 +++++++------------
 .../timeseries/filters/plotting_helpers.py    |  3 +-
 .../transfer_functions/io/zonge/zonge.py      |  8 +--
 4 files changed, 31 insertions(+), 52 deletions(-)

diff --git a/mt_metadata/features/coherence.py b/mt_metadata/features/coherence.py
index 88d9de7..0b65b63 100644
--- a/mt_metadata/features/coherence.py
+++ b/mt_metadata/features/coherence.py
@@ -253,14 +253,10 @@ class Coherence(Feature):
 
         # by this time, all stations should be set.  Confirm that we do not have a station that is None
         # TODO Consider returning False if exception encountered here.
-        try:
-            assert self.station_1 is not None
-        except Exception as e:
+        if self.station_1 is None:
             msg = "station_1 is not set -- perhaps it was set to a remote that does not exist?"
             logger.error(msg)
-        try:
-            assert self.station_2 is not None
-        except Exception as e:
+        if self.station_2 is None:
             msg = "station_2 is not set -- perhaps it was set to a remote that does not exist?"
             logger.error(msg)
 
diff --git a/mt_metadata/processing/aurora/decimation_level.py b/mt_metadata/processing/aurora/decimation_level.py
index 6cca508..b170355 100644
--- a/mt_metadata/processing/aurora/decimation_level.py
+++ b/mt_metadata/processing/aurora/decimation_level.py
@@ -403,9 +403,7 @@ class DecimationLevel(MetadataBase):
             required_channels = self.reference_channels
         else:
             required_channels = self.local_channels
-        try:
-            assert set(required_channels).issubset(fc_decimation.channels_estimated)
-        except AssertionError:
+        if not (set(required_channels).issubset(fc_decimation.channels_estimated)):
             msg = (
                 f"required_channels for processing {required_channels} not available"
                 f"-- fc channels estimated are {fc_decimation.channels_estimated}"
@@ -414,12 +412,10 @@ class DecimationLevel(MetadataBase):
             return False
 
         # anti_alias_filter: Check that the data were filtered the same way
-        try:
-            assert (
-                fc_decimation.time_series_decimation.anti_alias_filter
-                == self.decimation.anti_alias_filter
-            )
-        except AssertionError:
+        if not (
+            fc_decimation.time_series_decimation.anti_alias_filter
+            == self.decimation.anti_alias_filter
+        ):
             cond1 = self.decimation.anti_alias_filter == "default"
             cond2 = fc_decimation.time_series_decimation.anti_alias_filter is None
             if cond1 & cond2:
@@ -433,12 +429,10 @@ class DecimationLevel(MetadataBase):
                 raise NotImplementedError(msg)
 
         # sample_rate
-        try:
-            assert (
-                fc_decimation.time_series_decimation.sample_rate
-                == self.decimation.sample_rate
-            )
-        except AssertionError:
+        if not (
+            fc_decimation.time_series_decimation.sample_rate
+            == self.decimation.sample_rate
+        ):
             msg = (
                 f"Sample rates do not agree: fc {fc_decimation.time_series_decimation.sample_rate} differs from "
                 f"processing config {self.decimation.sample_rate}"
@@ -447,11 +441,9 @@ class DecimationLevel(MetadataBase):
             return False
 
         # transform method (fft, wavelet, etc.)
-        try:
-            assert (
-                fc_decimation.short_time_fourier_transform.method == self.stft.method
-            )  # FFT, Wavelet, etc.
-        except AssertionError:
+        if not (  # FFT, Wavelet, etc.
+            fc_decimation.short_time_fourier_transform.method == self.stft.method
+        ):
             msg = (
                 "Transform methods do not agree: "
                 f"fc {fc_decimation.short_time_fourier_transform.method} != processing config {self.stft.method}"
@@ -460,9 +452,7 @@ class DecimationLevel(MetadataBase):
             return False
 
         # prewhitening_type
-        try:
-            assert fc_decimation.stft.prewhitening_type == self.stft.prewhitening_type
-        except AssertionError:
+        if not (fc_decimation.stft.prewhitening_type == self.stft.prewhitening_type):
             msg = (
                 "prewhitening_type does not agree "
                 f"fc {fc_decimation.stft.prewhitening_type} != processing config {self.stft.prewhitening_type}"
@@ -471,9 +461,7 @@ class DecimationLevel(MetadataBase):
             return False
 
         # recoloring
-        try:
-            assert fc_decimation.stft.recoloring == self.stft.recoloring
-        except AssertionError:
+        if not (fc_decimation.stft.recoloring == self.stft.recoloring):
             msg = (
                 "recoloring does not agree "
                 f"fc {fc_decimation.stft.recoloring} != processing config {self.stft.recoloring}"
@@ -482,12 +470,10 @@ class DecimationLevel(MetadataBase):
             return False
 
         # pre_fft_detrend_type
-        try:
-            assert (
-                fc_decimation.stft.pre_fft_detrend_type
-                == self.stft.pre_fft_detrend_type
-            )
-        except AssertionError:
+        if not (
+            fc_decimation.stft.pre_fft_detrend_type
+            == self.stft.pre_fft_detrend_type
+        ):
             msg = (
                 "pre_fft_detrend_type does not agree "
                 f"fc {fc_decimation.stft.pre_fft_detrend_type} != processing config {self.stft.pre_fft_detrend_type}"
@@ -496,12 +482,10 @@ class DecimationLevel(MetadataBase):
             return False
 
         # min_num_stft_windows
-        try:
-            assert (
-                fc_decimation.stft.min_num_stft_windows
-                == self.stft.min_num_stft_windows
-            )
-        except AssertionError:
+        if not (
+            fc_decimation.stft.min_num_stft_windows
+            == self.stft.min_num_stft_windows
+        ):
             msg = (
                 "min_num_stft_windows do not agree "
                 f"fc {fc_decimation.stft.min_num_stft_windows} != processing config {self.stft.min_num_stft_windows}"
@@ -510,9 +494,7 @@ class DecimationLevel(MetadataBase):
             return False
 
         # window
-        try:
-            assert fc_decimation.stft.window == self.stft.window
-        except AssertionError:
+        if not (fc_decimation.stft.window == self.stft.window):
             msg = "window does not agree: "
             msg = f"{msg} FC Group: {fc_decimation.stft.window} "
             msg = f"{msg} Processing Config  {self.stft.window}"
diff --git a/mt_metadata/timeseries/filters/plotting_helpers.py b/mt_metadata/timeseries/filters/plotting_helpers.py
index 16cc928..80e6834 100644
--- a/mt_metadata/timeseries/filters/plotting_helpers.py
+++ b/mt_metadata/timeseries/filters/plotting_helpers.py
@@ -84,7 +84,8 @@ def plot_response(
     if not isinstance(label, list):
         label = [label]
 
-    assert len(label) == len(complex_response)
+    if len(label) != len(complex_response):
+        raise AssertionError("label and complex_response must have the same length")
 
     if x_units.lower() == "period":
         frequencies = 1.0 / frequencies
diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 9ffe968..b539f5b 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -200,8 +200,8 @@ class ZongeMTAvg:
 
         """
 
-        if isinstance(zmag, np.ndarray):
-            assert len(zmag) == len(zphase)
+        if isinstance(zmag, np.ndarray) and len(zmag) != len(zphase):
+            raise AssertionError("zmag and zphase must have the same length")
         zreal = zmag * np.cos((zphase / 1000))
         zimag = zmag * np.sin((zphase / 1000))
         return zreal, zimag
@@ -226,8 +226,8 @@ class ZongeMTAvg:
 
         """
 
-        if isinstance(zreal, np.ndarray):
-            assert len(zreal) == len(zimag)
+        if isinstance(zreal, np.ndarray) and len(zreal) != len(zimag):
+            raise AssertionError("zreal and zimag must have the same length")
         zphase = np.arctan2(zimag, zreal) * 1000
         zmag = np.sqrt(zreal**2 + zimag**2)
 
-- 
2.43.0


From 4da46cd6764f5c385abd910a73e56edb555d89e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 06/42] fix: build exported content before truncating the
 destination file

---
 mt_metadata/base/pydantic_helpers.py              |  3 ++-
 mt_metadata/base/schema.py                        |  3 ++-
 mt_metadata/timeseries/experiment.py              | 15 ++++++++-------
 .../transfer_functions/io/emtfxml/emtfxml.py      |  3 ++-
 mt_metadata/utils/converters.py                   |  3 ++-
 5 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index 404964b..2cfabbb 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -821,8 +821,9 @@ def _save_fields_to_disk(model_cls: type[BaseModel], tree: Dict[str, Any]) -> No
     """
     path = _disk_cache_path(model_cls)
     try:
+        text = json.dumps(tree, indent=2, ensure_ascii=False)
         with open(path, "w", encoding="utf-8") as f:
-            json.dump(tree, f, indent=2, ensure_ascii=False)
+            f.write(text)
     except Exception:
         # Best-effort caching; ignore write errors
         pass
diff --git a/mt_metadata/base/schema.py b/mt_metadata/base/schema.py
index 479bf18..253b970 100644
--- a/mt_metadata/base/schema.py
+++ b/mt_metadata/base/schema.py
@@ -358,8 +358,9 @@ class BaseDict(MutableMapping):
         json_fn = Path(json_fn)
 
         json_dict = dict([(k, v) for k, v in self.items() if k not in ["logger"]])
+        json_str = json.dumps(json_dict, cls=NumpyEncoder, indent=indent)
         with open(json_fn, "w", encoding="utf-8") as fid:
-            json.dump(json_dict, fid, cls=NumpyEncoder, indent=indent)
+            fid.write(json_str)
 
         return json_fn
 
diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 8b6086e..bf4b564 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -325,13 +325,13 @@ class Experiment(MetadataBase):
         """
 
         if fn is not None:
+            json_str = json.dumps(
+                self.to_dict(nested=nested, required=required),
+                cls=helpers.NumpyEncoder,
+                indent=indent,
+            )
             with open(fn, "w", encoding="utf-8") as fid:
-                json.dump(
-                    self.to_dict(nested=nested, required=required),
-                    fid,
-                    cls=helpers.NumpyEncoder,
-                    indent=indent,
-                )
+                fid.write(json_str)
 
         else:
             return json.dumps(
@@ -428,8 +428,9 @@ class Experiment(MetadataBase):
             experiment_element.append(survey_element)
 
         if fn:
+            xml_str = helpers.element_to_string(experiment_element)
             with open(fn, "w", encoding="utf-8") as fid:
-                fid.write(helpers.element_to_string(experiment_element))
+                fid.write(xml_str)
         return experiment_element
 
     def from_xml(
diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index f368704..41c8e5d 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -410,8 +410,9 @@ class EMTFXML:
 
         emtf_element = emtf_helpers._remove_null_values(emtf_element)
 
+        xml_str = helpers.element_to_string(emtf_element)
         with open(fn, "w", encoding="utf-8") as fid:
-            fid.write(helpers.element_to_string(emtf_element))
+            fid.write(xml_str)
 
         self.fn = fn
 
diff --git a/mt_metadata/utils/converters.py b/mt_metadata/utils/converters.py
index 5a546d8..4e152a6 100644
--- a/mt_metadata/utils/converters.py
+++ b/mt_metadata/utils/converters.py
@@ -78,8 +78,9 @@ def write_json(filename: Union[str, Path], data: Dict[str, Any]) -> None:
         filename (Union[str, Path]): The path to the JSON file.
         data (Dict[str, Any]): The data to write to the file.
     """
+    text = json.dumps(data, indent=4)
     with open(filename, "w", encoding="utf-8") as f:
-        json.dump(data, f, indent=4)
+        f.write(text)
 
 
 def get_default_value(
-- 
2.43.0


From f4891267efa908acdc6ee337457c1732e80685dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 07/42] fix: keep channel name lists independent of the string
 hash seed

---
 .../fourier_coefficients/decimation.py          | 17 +++++++++++++----
 mt_metadata/transfer_functions/__init__.py      |  3 ++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 829c6ab..f9d1825 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -199,8 +199,13 @@ class Decimation(MetadataBase):
             set(channels_estimated) if channels_estimated else set()
         )
 
-        # Find channels that are estimated but don't exist in channels ListDict
-        missing_channels = estimated_channel_names - existing_channel_names
+        # Find channels that are estimated but don't exist in channels ListDict,
+        # in the order they are listed
+        missing_channels = [
+            name
+            for name in dict.fromkeys(channels_estimated or [])
+            if name not in existing_channel_names
+        ]
 
         # Create FCChannel objects for missing channels
         for channel_name in missing_channels:
@@ -209,11 +214,15 @@ class Decimation(MetadataBase):
             channels.append(new_channel)
 
         # Find channels in ListDict that aren't in channels_estimated and add them
-        extra_channels = existing_channel_names - estimated_channel_names
+        extra_channels = [
+            name
+            for name in dict.fromkeys(channels.keys() or [])
+            if name not in estimated_channel_names
+        ]
         if extra_channels:
             logger.info(f"Adding channels to channels_estimated: {extra_channels}")
             # Add the extra channel names to channels_estimated
-            self.channels_estimated.extend(list(extra_channels))
+            self.channels_estimated.extend(extra_channels)
 
         return self
 
diff --git a/mt_metadata/transfer_functions/__init__.py b/mt_metadata/transfer_functions/__init__.py
index 89745a1..1dfbd1f 100644
--- a/mt_metadata/transfer_functions/__init__.py
+++ b/mt_metadata/transfer_functions/__init__.py
@@ -84,7 +84,8 @@ def get_allowed_channel_names(standard_names):
     for ch in standard_names:
         for _, channel_map in CHANNEL_MAPS.items():
             allowed_names.append(channel_map[ch])
-    allowed_names = list(set(allowed_names))
+    # remove duplicates, keeping the order of the nomenclature table
+    allowed_names = list(dict.fromkeys(allowed_names))
     return allowed_names
 
 
-- 
2.43.0


From 146608e0be43ecc140d068a7c11d7840a75d0b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 08/42] fix: read MTML files in a fixed order and register
 dipole filters by name

---
 mt_metadata/timeseries/tools/from_many_mt_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/tools/from_many_mt_files.py b/mt_metadata/timeseries/tools/from_many_mt_files.py
index 70a4461..f0ce107 100644
--- a/mt_metadata/timeseries/tools/from_many_mt_files.py
+++ b/mt_metadata/timeseries/tools/from_many_mt_files.py
@@ -101,7 +101,7 @@ class MT2StationXML(XMLInventoryMTExperiment):
         Get all mtml xml files for a given station.
         """
         if self.has_xml_path():
-            return list(self.xml_path.rglob("*.xml"))
+            return sorted(self.xml_path.rglob("*.xml"))
         raise ValueError("self.xml_path must be set")
 
     def make_df(self):
@@ -453,7 +453,7 @@ class MT2StationXML(XMLInventoryMTExperiment):
 
         filter_dict = self._make_filters_dict(filters_fn)
         if dp_filter is not None:
-            filter_dict.update({dp_filter.name, dp_filter})
+            filter_dict.update({dp_filter.name: dp_filter})
 
         channel_response = mt_channel.channel_response(filter_dict)
 
-- 
2.43.0


From 2f96ff6f3ffb0a698fc720a7a9b2f5e434e5c6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 09/42] fix: keep metadata unchanged when exporting it to dict,
 xml, latex or obspy

---
 mt_metadata/base/metadata.py                      |  8 +++++---
 mt_metadata/base/schema.py                        |  1 +
 mt_metadata/common/comment.py                     |  9 +++------
 .../timeseries/filters/pole_zero_filter.py        | 10 ++++------
 .../io/emtfxml/metadata/electric.py               | 15 ++++-----------
 .../io/emtfxml/metadata/location.py               | 10 ++++------
 .../io/emtfxml/metadata/magnetic.py               | 12 ++++--------
 .../io/emtfxml/metadata/orientation.py            |  7 ++++---
 .../io/emtfxml/metadata/remote_ref.py             |  5 ++---
 .../io/emtfxml/metadata/site.py                   |  6 ++++--
 10 files changed, 35 insertions(+), 48 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 7e135c1..fe866dc 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1094,13 +1094,15 @@ class MetadataBase(DotNotationBaseModel):
                 elif hasattr(value, "to_dict"):
                     value = value.to_dict(nested=nested, required=required)
                 elif isinstance(value, dict):
+                    v_dict = {}
                     for key, obj in value.items():
                         if hasattr(obj, "to_dict"):
-                            value[key] = obj.to_dict(nested=nested, required=required)
+                            v_dict[key] = obj.to_dict(nested=nested, required=required)
                         elif isinstance(obj, Enum):
-                            value[key] = obj.value
+                            v_dict[key] = obj.value
                         else:
-                            value[key] = obj
+                            v_dict[key] = obj
+                    value = v_dict
                 elif isinstance(value, list):
                     v_list = []
                     for obj in value:
diff --git a/mt_metadata/base/schema.py b/mt_metadata/base/schema.py
index 253b970..ffc5120 100644
--- a/mt_metadata/base/schema.py
+++ b/mt_metadata/base/schema.py
@@ -223,6 +223,7 @@ class BaseDict(MutableMapping):
 
         lines = []
         for name, v_dict in level_dict.items():
+            v_dict = dict(v_dict)
             if not v_dict["options"] in [None, "none", "None", []]:
                 v_dict["description"] += ".  Options: {0}".format(v_dict["options"])
             line = [
diff --git a/mt_metadata/common/comment.py b/mt_metadata/common/comment.py
index 4be889a..7f2ae43 100644
--- a/mt_metadata/common/comment.py
+++ b/mt_metadata/common/comment.py
@@ -240,12 +240,9 @@ class Comment(MetadataBase):
         :rtype: str | et.Element
         """
 
-        if self.author is None:
-            self.author = ""
-        root = et.Element(self.__class__.__name__ + "s", {"author": self.author})
-        if self.value is None:
-            self.value = ""
-        root.text = self.value
+        author = "" if self.author is None else self.author
+        root = et.Element(self.__class__.__name__ + "s", {"author": author})
+        root.text = "" if self.value is None else self.value
 
         if string:
             return element_to_string(root)
diff --git a/mt_metadata/timeseries/filters/pole_zero_filter.py b/mt_metadata/timeseries/filters/pole_zero_filter.py
index db28d28..4e2f104 100644
--- a/mt_metadata/timeseries/filters/pole_zero_filter.py
+++ b/mt_metadata/timeseries/filters/pole_zero_filter.py
@@ -151,10 +151,8 @@ class PoleZeroFilter(FilterBase):
         :rtype: :class:`obspy.core.inventory.PolesZerosResponseStage`
 
         """
-        if self.zeros is None:
-            self.zeros = []
-        if self.poles is None:
-            self.poles = []
+        zeros = [] if self.zeros is None else self.zeros
+        poles = [] if self.poles is None else self.poles
 
         rs = obspy.core.inventory.PolesZerosResponseStage(
             stage_number,
@@ -164,8 +162,8 @@ class PoleZeroFilter(FilterBase):
             self.units_out_object.symbol,
             pz_type,
             normalization_frequency,
-            self.zeros,
-            self.poles,
+            zeros,
+            poles,
             name=self.name,
             normalization_factor=self.normalization_factor,
             description=self.get_filter_description(),
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/electric.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/electric.py
index c8adb1e..ace6190 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/electric.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/electric.py
@@ -137,23 +137,16 @@ class Electric(MetadataBase):
 
         """
 
+        attrs = {"name": self.name}
         for attr in ["orientation", "x", "y", "z", "x2", "y2", "z2"]:
             value = getattr(self, attr)
             if value is None:
-                setattr(self, attr, 0)
+                value = 0
+            attrs[attr] = f"{value:.3f}"
 
         root = et.Element(
             self.__class__.__name__.capitalize(),
-            {
-                "name": self.name,
-                "orientation": f"{self.orientation:.3f}",
-                "x": f"{self.x:.3f}",
-                "y": f"{self.y:.3f}",
-                "z": f"{self.z:.3f}",
-                "x2": f"{self.x2:.3f}",
-                "y2": f"{self.y2:.3f}",
-                "z2": f"{self.z2:.3f}",
-            },
+            attrs,
         )
 
         if string:
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/location.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/location.py
index 7e0a1c3..4195064 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/location.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/location.py
@@ -39,12 +39,10 @@ class Location(BasicLocation):
             XML representation of the BasicLocationDeclination object as a string or ElementTree Element.
 
         """
-        if self.datum is None:
-            self.datum = "WGS84"
-        if self.declination.epoch is None:
-            self.declination.epoch = "1995"
+        datum = "WGS84" if self.datum is None else self.datum
+        epoch = "1995" if self.declination.epoch is None else self.declination.epoch
 
-        root = et.Element(self.__class__.__name__.capitalize(), {"datum": self.datum})
+        root = et.Element(self.__class__.__name__.capitalize(), {"datum": datum})
         lat = et.SubElement(root, "Latitude")
         lat.text = f"{self.latitude:.6f}"
         lon = et.SubElement(root, "Longitude")
@@ -52,7 +50,7 @@ class Location(BasicLocation):
         elev = et.SubElement(root, "Elevation", {"units": "meters"})
         elev.text = f"{self.elevation:.3f}"
         dec = et.SubElement(
-            root, "Declination", {"epoch": self.declination.epoch.split(".", 1)[0]}
+            root, "Declination", {"epoch": epoch.split(".", 1)[0]}
         )
         dec.text = f"{self.declination.value:.3f}"
 
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/magnetic.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/magnetic.py
index 7baddc8..fd4a350 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/magnetic.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/magnetic.py
@@ -93,19 +93,15 @@ class Magnetic(MetadataBase):
         :rtype: str | et.Element
 
         """
+        attrs = {"name": self.name}
         for attr in ["orientation", "x", "y", "z"]:
             value = getattr(self, attr)
             if value is None:
-                setattr(self, attr, 0)
+                value = 0
+            attrs[attr] = f"{value:.3f}"
         root = et.Element(
             self.__class__.__name__.capitalize(),
-            {
-                "name": self.name,
-                "orientation": f"{self.orientation:.3f}",
-                "x": f"{self.x:.3f}",
-                "y": f"{self.y:.3f}",
-                "z": f"{self.z:.3f}",
-            },
+            attrs,
         )
 
         if string:
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/orientation.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/orientation.py
index ecc483b..7a54a9a 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/orientation.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/orientation.py
@@ -71,11 +71,12 @@ class Orientation(MetadataBase):
         """
 
         if self.layout == "orthogonal":
-            if self.angle_to_geographic_north is None:
-                self.angle_to_geographic_north = 0.0
+            angle = self.angle_to_geographic_north
+            if angle is None:
+                angle = 0.0
             root = et.Element(
                 self.__class__.__name__.capitalize(),
-                {"angle_to_geographic_north": f"{self.angle_to_geographic_north:.3f}"},
+                {"angle_to_geographic_north": f"{angle:.3f}"},
             )
             root.text = self.layout
         else:
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/remote_ref.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/remote_ref.py
index 0990b53..742eb24 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/remote_ref.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/remote_ref.py
@@ -55,10 +55,9 @@ class RemoteRef(MetadataBase):
             The XML representation of the RemoteRef object.
         """
 
-        if self.type is None:
-            self.type = ""
+        ref_type = "" if self.type is None else self.type
 
-        root = et.Element(self.__class__.__name__, {"type": self.type})
+        root = et.Element(self.__class__.__name__, {"type": ref_type})
         if string:
             return element_to_string(root)
         return root
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/site.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/site.py
index 8babcf0..982feab 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/site.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/site.py
@@ -336,11 +336,13 @@ class Site(MetadataBase):
             The XML representation of the object.
         """
 
+        site = self
         if self.end < self.start:  # type: ignore
-            self.end = self.start
+            site = self.model_copy()
+            site.end = site.start
 
         return helpers.to_xml(
-            self,
+            site,
             string=string,
             required=required,
             order=[
-- 
2.43.0


From d37e0f41d9116165c975bdc7f624f989e111b0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 10/42] fix: Experiment.to_xml leaves the order and channel
 positions unchanged

---
 mt_metadata/timeseries/experiment.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index bf4b564..479f3b9 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -381,34 +381,31 @@ class Experiment(MetadataBase):
         """
 
         experiment_element = et.Element(self.__class__.__name__)
-        if sort:
-            self.surveys.sort()
-        for survey in self.surveys:
+        surveys = self.surveys.sort(inplace=False).values() if sort else self.surveys
+        for survey in surveys:
             survey.update_bounding_box()
             survey.update_time_period()
             survey_element = survey.to_xml(required=required)
             filter_element = et.SubElement(survey_element, "filters")
             for key, value in survey.filters.items():
                 filter_element.append(value.to_xml(required=required))
-            if sort:
-                survey.stations.sort()
-            for station in survey.stations:
+            stations = survey.stations.sort(inplace=False).values() if sort else survey.stations
+            for station in stations:
                 station.update_time_period()
                 station_element = station.to_xml(required=required)
-                if sort:
-                    station.runs.sort()
-                for run in station.runs:
+                runs = station.runs.sort(inplace=False).values() if sort else station.runs
+                for run in runs:
                     run.update_time_period()
                     run_element = run.to_xml(required=required)
-                    if sort:
-                        run.channels.sort()
-                    for channel in run.channels:
+                    channels = run.channels.sort(inplace=False).values() if sort else run.channels
+                    for channel in channels:
                         if channel.type in ["electric"]:
                             if (
                                 channel.positive.latitude == 0
                                 and channel.positive.longitude == 0
                                 and channel.positive.elevation == 0
                             ):
+                                channel = channel.copy()
                                 channel.positive.latitude = station.location.latitude
                                 channel.positive.longitude = station.location.longitude
                                 channel.positive.elevation = station.location.elevation
@@ -418,6 +415,7 @@ class Experiment(MetadataBase):
                                 and channel.location.longitude == 0
                                 and channel.location.elevation == 0
                             ):
+                                channel = channel.copy()
                                 channel.location.latitude = station.location.latitude
                                 channel.location.longitude = station.location.longitude
                                 channel.location.elevation = station.location.elevation
-- 
2.43.0


From b6f557bf66cf6eaed08a1f4c985e1192dd6796cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 11/42] fix: writing or converting a transfer function leaves
 it unchanged

---
 mt_metadata/transfer_functions/core.py | 38 ++++++++++++++------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 098d36f..e3f1e36 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1926,13 +1926,14 @@ class TF:
 
         """
 
+        write_dir = self.save_dir
         if fn is not None:
             new_fn = Path(fn)
-            self.save_dir = new_fn.parent
+            write_dir = new_fn.parent
             fn_basename = new_fn.name
             file_type = new_fn.suffix.lower()[1:]
         if save_dir is not None:
-            self.save_dir = Path(save_dir)
+            write_dir = Path(save_dir)
         if fn_basename is not None:
             fn_basename = Path(fn_basename)
             if fn_basename.suffix in ["", None]:
@@ -1945,13 +1946,7 @@ class TF:
             msg = f"File type {file_type} not supported yet."
             logger.error(msg)
             raise TFError(msg)
-        fn = self.save_dir.joinpath(fn_basename)
-
-        if not isinstance(self._rotation_angle, (float, int)):
-            if self._rotation_angle.size != self.period.size:
-                self._rotation_angle = np.repeat(
-                    self._rotation_angle.mean(), self.period.size
-                )
+        fn = write_dir.joinpath(fn_basename)
 
         obj = self._read_write_dict[file_type]["write"]()
         obj._fn = fn
@@ -2045,6 +2040,13 @@ class TF:
 
         if isinstance(self._rotation_angle, (int, float)):
             edi_obj.rotation_angle = np.repeat(self._rotation_angle, self.period.size)
+        elif (
+            self._rotation_angle is not None
+            and self._rotation_angle.size != self.period.size
+        ):
+            edi_obj.rotation_angle = np.repeat(
+                self._rotation_angle.mean(), self.period.size
+            )
         else:
             edi_obj.rotation_angle = self._rotation_angle
 
@@ -2363,7 +2365,9 @@ class TF:
         zmm_obj = ZMM(**zmm_kwargs)
 
         zmm_obj.dataset = self.dataset
-        zmm_obj.station_metadata = self.station_metadata
+        # work on a copy, a run may be added or replaced below
+        station_metadata = self.station_metadata.copy()
+        zmm_obj.station_metadata = station_metadata
 
         # need to set the channel numbers according to the z-file format
         # with input channels (h's) and output channels (hz, e's).
@@ -2378,20 +2382,20 @@ class TF:
             if self.has_impedance():
                 zmm_obj.num_channels = 4
                 number_dict = {"hx": 1, "hy": 2, "ex": 3, "ey": 4}
-        if len(self.station_metadata.runs) == 0:
+        if len(station_metadata.runs) == 0:
             run = self.make_zmm_run(zmm_obj, number_dict)
-            self.station_metadata.add_run(run)
-        elif len(self.station_metadata.runs[0].channels_recorded_all) == 0:
+            station_metadata.add_run(run)
+        elif len(station_metadata.runs[0].channels_recorded_all) == 0:
             # avoid the default metadata getting interpretted as a real metadata object
             # Overwrite this "spoof" run with a run that has recorded channels
-            if len(self.station_metadata.runs[0].channels_recorded_all) == 0:
+            if len(station_metadata.runs[0].channels_recorded_all) == 0:
                 run = self.make_zmm_run(zmm_obj, number_dict)
-                self.station_metadata.runs[0] = run
+                station_metadata.runs[0] = run
         else:
-            for comp in self.station_metadata.runs[0].channels_recorded_all:
+            for comp in station_metadata.runs[0].channels_recorded_all:
                 if "rr" in comp:
                     continue
-                ch = self.station_metadata.runs[0].get_channel(comp)
+                ch = station_metadata.runs[0].get_channel(comp)
                 ch.component = self.inverse_channel_nomenclature[comp]
                 c = ZChannel()
                 c.from_dict(ch.to_dict(single=True))
-- 
2.43.0


From a3229391e92975e879ef6f1b800e2002824ad7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 12/42] fix: StationXML translation leaves its inputs unchanged
 and shares no default dict

---
 .../stationxml/xml_channel_mt_channel.py      | 24 ++++++++++---------
 .../stationxml/xml_station_mt_station.py      | 12 ++++------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 51d88f0..62f3e84 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -87,7 +87,7 @@ class XMLChannelMTChannel(BaseTranslator):
         self.mt_comments_list = ["run.id"]
         self.run_list = None
 
-    def xml_to_mt(self, xml_channel, existing_filters={}):
+    def xml_to_mt(self, xml_channel, existing_filters=None):
         """
         Translate :class:`obspy.core.inventory.Channel` to
         :class:`mt_metadata.timeseries.Channel`
@@ -249,15 +249,15 @@ class XMLChannelMTChannel(BaseTranslator):
         :rtype: TYPE
 
         """
-        sensor.type = self._deduce_sensor_type(sensor)
+        sensor_type = self._deduce_sensor_type(sensor)
 
-        if not sensor.type:
+        if not sensor_type:
             return mt_channel
 
-        if sensor.type.lower() in ["magnetometer", "induction coil", "coil"]:
+        if sensor_type.lower() in ["magnetometer", "induction coil", "coil"]:
             if not isinstance(mt_channel, Magnetic):
                 msg = (
-                    f"Cannot put sensor of type {sensor.type} into an "
+                    f"Cannot put sensor of type {sensor_type} into an "
                     f"MT Channel of {type(mt_channel)}."
                 )
                 logger.error(msg)
@@ -265,15 +265,15 @@ class XMLChannelMTChannel(BaseTranslator):
             mt_channel.sensor.id = sensor.serial_number
             mt_channel.sensor.manufacturer = sensor.manufacturer
             mt_channel.sensor.model = f"{sensor.model} {sensor.description}"
-            mt_channel.sensor.type = sensor.type
+            mt_channel.sensor.type = sensor_type
             mt_channel.sensor.name = sensor.description
 
             return mt_channel
 
-        elif sensor.type.lower() in ["dipole", "electrode"]:
+        elif sensor_type.lower() in ["dipole", "electrode"]:
             if not isinstance(mt_channel, Electric):
                 msg = (
-                    f"Cannot put sensor of type {sensor.type} into an "
+                    f"Cannot put sensor of type {sensor_type} into an "
                     f"MT Channel of {type(mt_channel)}."
                 )
                 logger.error(msg)
@@ -298,13 +298,13 @@ class XMLChannelMTChannel(BaseTranslator):
         else:
             if not isinstance(mt_channel, Auxiliary):
                 msg = (
-                    f"Cannot put sensor of type {sensor.type} into an "
+                    f"Cannot put sensor of type {sensor_type} into an "
                     f"MT Channel of {type(mt_channel)}."
                 )
                 logger.error(msg)
                 raise ValueError(msg)
 
-            mt_channel.sensor.type = sensor.type
+            mt_channel.sensor.type = sensor_type
             mt_channel.sensor.manufacturer = sensor.manufacturer
             mt_channel.sensor.model = f"{sensor.model} {sensor.description}"
             mt_channel.sensor.id = sensor.serial_number
@@ -515,10 +515,12 @@ class XMLChannelMTChannel(BaseTranslator):
 
         return mt_channel
 
-    def _xml_response_to_mt(self, xml_channel, existing_filters={}):
+    def _xml_response_to_mt(self, xml_channel, existing_filters=None):
         """
         parse the filters from obspy into mt filters
         """
+        if existing_filters is None:
+            existing_filters = {}
         ch_filter_dict = OrderedDict()
         for i_stage, stage in enumerate(xml_channel.response.response_stages):
             new_and_unnamed = False
diff --git a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
index 9740bfe..273bf82 100644
--- a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
+++ b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
@@ -210,9 +210,6 @@ class XMLStationMTStation(BaseTranslator):
         else:
             code = mt_station.id
 
-        if mt_station.fdsn.id is None:
-            mt_station.fdsn.id = mt_station.id
-
         xml_station = inventory.Station(
             code.upper(),
             mt_station.location.latitude,
@@ -236,11 +233,10 @@ class XMLStationMTStation(BaseTranslator):
 
             elif xml_key == "operators":
                 if mt_station.acquired_by.author:
-                    if mt_station.acquired_by.organization is None:
-                        mt_station.acquired_by.organization = " "
-                    operator = inventory.Operator(
-                        agency=mt_station.acquired_by.organization
-                    )
+                    agency = mt_station.acquired_by.organization
+                    if agency is None:
+                        agency = " "
+                    operator = inventory.Operator(agency=agency)
                     person = inventory.Person(names=[mt_station.acquired_by.author])
                     person = inventory.Person(names=[mt_station.acquired_by.author])
                     operator.contacts = [person]
-- 
2.43.0


From 05f80cb58b4f2c4e39f5fd855522eeed969bd09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 13/42] fix: keep an own copy of the channel nomenclature,
 merge leaves its operands unchanged

---
 mt_metadata/transfer_functions/core.py          | 10 +++++-----
 mt_metadata/transfer_functions/io/zfiles/zmm.py |  1 +
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index e3f1e36..eaa242c 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -598,7 +598,8 @@ class TF:
                 "['ex', 'ey', 'hx', 'hy', 'hz']."
             )
 
-        self._channel_nomenclature = ch_dict
+        self._channel_nomenclature = dict(ch_dict)
+        self._inverse_channel_nomenclature = {}
         # unpack channel nomenclature dict
         self.ex = self._channel_nomenclature["ex"]
         self.ey = self._channel_nomenclature["ey"]
@@ -1801,10 +1802,9 @@ class TF:
             """
             item = validate_dict(item)
             period_slice = get_slice_dict(item["period_min"], item["period_max"])
-            item["tf"]._transfer_function = sort_by_period(
-                item["tf"]._transfer_function
-            )
-            return get_slice(item["tf"], period_slice)
+            item_tf = item["tf"].copy()
+            item_tf._transfer_function = sort_by_period(item_tf._transfer_function)
+            return get_slice(item_tf, period_slice)
 
         def get_slice(tf, period_slice: dict[str, slice]) -> xr.Dataset | None:
             """
diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index 62b280a..f725c36 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -417,6 +417,7 @@ class ZMM(ZMMHeader):
                 "['ex', 'ey', 'hx', 'hy', 'hz']."
             )
 
+        ch_dict = dict(ch_dict)
         self._channel_nomenclature = ch_dict
         # unpack channel nomenclature dict
         for comp in DEFAULT_CHANNEL_NOMENCLATURE.keys():
-- 
2.43.0


From 229b29cd99f2eb73f46efaff0e50b5d1813777d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 14/42] fix: loaders and validators leave the objects passed to
 them unchanged

---
 mt_metadata/base/helpers.py                              | 9 +++++----
 mt_metadata/base/metadata.py                             | 1 +
 mt_metadata/features/coherence.py                        | 1 +
 mt_metadata/features/fc_coherence.py                     | 1 +
 mt_metadata/features/feature_fc.py                       | 1 +
 mt_metadata/features/feature_ts.py                       | 1 +
 mt_metadata/features/striding_window_coherence.py        | 1 +
 mt_metadata/features/weights/feature_weight_spec.py      | 2 +-
 .../processing/fourier_coefficients/decimation.py        | 1 +
 mt_metadata/timeseries/channel.py                        | 1 +
 .../io/emtfxml/metadata/processing_info.py               | 6 ++++--
 .../io/emtfxml/metadata/remote_info.py                   | 5 ++++-
 mt_metadata/utils/validators.py                          | 1 +
 13 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index cab2b67..a0d8863 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -832,6 +832,7 @@ def element_to_dict(element):
             meta_dict[element.tag] = meta_dict[element.tag]["item"]
     # going to skip attributes for now, later can check them against
     # standards, neet to skip units and type
+    attributes = dict(element.attrib)
     if element.attrib:
         pop_units = False
         pop_type = False
@@ -857,14 +858,14 @@ def element_to_dict(element):
 
             meta_dict[element.tag][k] = v
         if pop_units:
-            element.attrib.pop("units")
+            attributes.pop("units")
         if pop_type:
-            element.attrib.pop("type")
+            attributes.pop("type")
     if element.text:
         text = element.text.strip()
-        if children or element.attrib:
+        if children or attributes:
             if text:
-                if len(element.attrib.keys()) > 0:
+                if len(attributes.keys()) > 0:
                     meta_dict[element.tag]["value"] = text
                 else:
                     meta_dict[element.tag] = text
diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index fe866dc..31a8215 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -231,6 +231,7 @@ class MetadataBase(DotNotationBaseModel):
         if not isinstance(values, dict):
             return values
 
+        values = dict(values)
         for field, field_info in cls.model_fields.items():
             # Skip conversion if the field's default is explicitly None
             if field_info.default is None:
diff --git a/mt_metadata/features/coherence.py b/mt_metadata/features/coherence.py
index 0b65b63..a6c015f 100644
--- a/mt_metadata/features/coherence.py
+++ b/mt_metadata/features/coherence.py
@@ -189,6 +189,7 @@ class Coherence(Feature):
     @model_validator(mode="before")
     @classmethod
     def set_defaults(cls, data: dict) -> dict:
+        data = dict(data)
         data["name"] = "coherence"
         data["domain"] = "frequency"
         data["description"] = (
diff --git a/mt_metadata/features/fc_coherence.py b/mt_metadata/features/fc_coherence.py
index 4c7968f..f135b3b 100644
--- a/mt_metadata/features/fc_coherence.py
+++ b/mt_metadata/features/fc_coherence.py
@@ -69,6 +69,7 @@ class FCCoherence(Coherence, Feature):
     @model_validator(mode="before")
     @classmethod
     def set_defaults(cls, data: dict) -> dict:
+        data = dict(data)
         data["name"] = "fc_coherence"
         data["domain"] = "frequency"
         data["description"] = (
diff --git a/mt_metadata/features/feature_fc.py b/mt_metadata/features/feature_fc.py
index f19598a..06dd002 100644
--- a/mt_metadata/features/feature_fc.py
+++ b/mt_metadata/features/feature_fc.py
@@ -19,6 +19,7 @@ class FeatureFC(Feature):
     @model_validator(mode="before")
     @classmethod
     def set_defaults(cls, data: dict) -> dict:
+        data = dict(data)
         data["name"] = "feature_fc"
         data["description"] = "A feature for storing feature_fc information."
         data["domain"] = "frequency"
diff --git a/mt_metadata/features/feature_ts.py b/mt_metadata/features/feature_ts.py
index 6b2cc55..5f47254 100644
--- a/mt_metadata/features/feature_ts.py
+++ b/mt_metadata/features/feature_ts.py
@@ -18,6 +18,7 @@ class FeatureTS(Feature):
     @model_validator(mode="before")
     @classmethod
     def set_defaults(cls, data: dict) -> dict:
+        data = dict(data)
         data["name"] = "feature_ts"
         data["description"] = "A feature for storing time series information."
         data["domain"] = "time"
diff --git a/mt_metadata/features/striding_window_coherence.py b/mt_metadata/features/striding_window_coherence.py
index cc7998c..c43a68e 100644
--- a/mt_metadata/features/striding_window_coherence.py
+++ b/mt_metadata/features/striding_window_coherence.py
@@ -86,6 +86,7 @@ class StridingWindowCoherence(Coherence):
     @model_validator(mode="before")
     @classmethod
     def set_defaults(cls, data: dict) -> dict:
+        data = dict(data)
         data["name"] = "striding_window_coherence"
         data["domain"] = "frequency"
         data["description"] = (
diff --git a/mt_metadata/features/weights/feature_weight_spec.py b/mt_metadata/features/weights/feature_weight_spec.py
index 01a3e88..30023c0 100644
--- a/mt_metadata/features/weights/feature_weight_spec.py
+++ b/mt_metadata/features/weights/feature_weight_spec.py
@@ -105,7 +105,7 @@ class FeatureWeightSpec(MetadataBase):
                     logger.debug(
                         f"pre_process_feature: Creating {feature_cls.__name__} instance"
                     )
-                    data["feature"] = feature_cls(**feature_data)
+                    data = {**data, "feature": feature_cls(**feature_data)}
                 else:
                     logger.warning(
                         f"pre_process_feature: Unknown feature name '{feature_name}', using Feature"
diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index f9d1825..659621c 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -112,6 +112,7 @@ class Decimation(MetadataBase):
             msg = f"per_window_detrend_type was set to {value.per_window_detrend_type}"
             msg += "however, this is not supported -- setting to empty string"
             logger.debug(msg)
+            value = value.model_copy(deep=True)
             value.per_window_detrend_type = ""
         return value
 
diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index b397a1a..a2dad04 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -474,6 +474,7 @@ class ChannelBase(MetadataBase):
                 return
 
             if applied_filter.stage is None:
+                applied_filter = applied_filter.model_copy(deep=True)
                 applied_filter.stage = len(self.filters) + 1
             self.filters.append(applied_filter)
         else:
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/processing_info.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/processing_info.py
index 36c4f04..35d4e21 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/processing_info.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/processing_info.py
@@ -146,7 +146,7 @@ class ProcessingInfo(MetadataBase):
             A dictionary containing processing information.
         """
         try:
-            processing_dict = input_dict["processing_info"]
+            processing_dict = dict(input_dict["processing_info"])
         except KeyError:
             return
 
@@ -160,7 +160,9 @@ class ProcessingInfo(MetadataBase):
             except KeyError:
                 logger.debug(f"No {key} information in xml.")
 
-        helpers._read_element(self, input_dict, "processing_info")
+        helpers._read_element(
+            self, {"processing_info": processing_dict}, "processing_info"
+        )
 
     def to_xml(self, string: bool = False, required: bool = True) -> str | et.Element:
         """
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/remote_info.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/remote_info.py
index 6108adb..4f6b6b1 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/remote_info.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/remote_info.py
@@ -63,9 +63,12 @@ class RemoteInfo(MetadataBase):
             remote_info_dict = input_dict["remote_info"]
         except KeyError:
             return
+        if not isinstance(remote_info_dict, dict):
+            logger.warning(f"Cannot read remote_info from {remote_info_dict}.")
+            return
         for key in ["site", "field_notes"]:
             try:
-                pop_dict = {key: remote_info_dict.pop(key)}
+                pop_dict = {key: remote_info_dict[key]}
                 getattr(self, key).read_dict(pop_dict)
             except KeyError:
                 logger.debug(f"No {key} information in xml.")
diff --git a/mt_metadata/utils/validators.py b/mt_metadata/utils/validators.py
index 2a35cd0..0afbee0 100644
--- a/mt_metadata/utils/validators.py
+++ b/mt_metadata/utils/validators.py
@@ -739,6 +739,7 @@ def validate_value_dict(value_dict):
         msg = f"Input must be a dictionary, not {type(value_dict)}"
         raise MTValidatorError(msg)
 
+    value_dict = dict(value_dict)
     header = validate_header(list(value_dict.keys()))
     # loop over validating functions in this module
     for key in header:
-- 
2.43.0


From 2cf190f59c85d76e1fa3abdc28d0ec48b8ca4b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 15/42] fix: merge with inplace=False leaves the operands
 unchanged

---
 mt_metadata/timeseries/run.py     |  9 +++++----
 mt_metadata/timeseries/station.py | 13 ++++++++++---
 mt_metadata/timeseries/survey.py  | 12 ++++++++----
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 77867e7..a1308cd 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -469,12 +469,13 @@ class Run(MetadataBase):
 
         """
         if isinstance(other, Run):
+            if not inplace:
+                merged = self.copy()
+                merged.merge(other.copy(), inplace=True)
+                return merged
             self.channels.extend(other.channels)
             self._update_channels_recorded()
-            if inplace:
-                self.update_time_period()
-            else:
-                return self.copy()
+            self.update_time_period()
         else:
             msg = f"Can only merge Run objects, not {type(other)}"
             logger.error(msg)
diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index ff04a64..9ad437d 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -336,12 +336,19 @@ class Station(MetadataBase):
 
         return runs
 
-    def merge(self, other, inplace=False):
+    def merge(self, other, inplace=True):
+        """
+        Merge the runs of another station into this station, or into a copy of
+        this station if `inplace` is False.  Returns the merged station.
+        """
         if isinstance(other, Station):
+            if not inplace:
+                merged = self.copy()
+                merged.merge(other.copy())
+                return merged
             self.runs.extend(other.runs)
             self.update_all()
-            if not inplace:
-                return self
+            return self
         else:
             msg = f"Can only merge Station objects, not {type(other)}"
             logger.error(msg)
diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 2c4c381..6221b9a 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -530,7 +530,7 @@ class Survey(MetadataBase):
             },
         }
 
-    def merge(self, other: "Survey", inplace=False) -> "Survey":
+    def merge(self, other: "Survey", inplace=True) -> "Survey":
         """
         Merge surveys together using the original metadata but adding other's stations.
 
@@ -539,7 +539,8 @@ class Survey(MetadataBase):
         other : Survey
             Survey object
         inplace : bool, optional
-            merge in place, by default False
+            merge in place, by default True.  If False the operands are left
+            unchanged and a merged copy is returned.
 
         Returns
         -------
@@ -552,10 +553,13 @@ class Survey(MetadataBase):
             If items cannot be merged.
         """
         if isinstance(other, Survey):
+            if not inplace:
+                merged = self.copy()
+                merged.merge(other.copy())
+                return merged
             self.stations.extend(other.stations)
             self.update_all()
-            if not inplace:
-                return self
+            return self
         else:
             msg = f"Can only merge Survey objects, not {type(other)}"
             logger.error(msg)
-- 
2.43.0


From 09296cc8625a379c4f39d581c19d53c547b55d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 16/42] fix: writing an EDI file leaves the channel metadata
 unchanged

---
 .../transfer_functions/io/edi/metadata/define_measurement.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
index 920e58d..15e3b1d 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
@@ -520,6 +520,7 @@ class DefineMeasurement(MetadataBase):
         if channel.component is None:
             return
 
+        channel = channel.copy()
         azm = channel.measurement_azimuth
         if azm != channel.translated_azimuth:
             azm = channel.translated_azimuth
-- 
2.43.0


From 561022744e0cc71a53dad9212c77169c5b7cf497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 17/42] fix: hand out copies of the shared field and channel
 tables

---
 mt_metadata/base/pydantic_helpers.py                  | 2 +-
 mt_metadata/processing/aurora/channel_nomenclature.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index 2cfabbb..e6701e7 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -179,7 +179,7 @@ def flatten_field_tree_map(
 
         # Leaf: field summary dicts have "__field__": True
         if isinstance(node, dict) and node.get("__field__") is True:
-            out[path] = node
+            out[path] = dict(node)
             continue
 
         # Nested: recurse into sub-dicts that are not leaf summaries
diff --git a/mt_metadata/processing/aurora/channel_nomenclature.py b/mt_metadata/processing/aurora/channel_nomenclature.py
index 20b0851..d5d28a8 100644
--- a/mt_metadata/processing/aurora/channel_nomenclature.py
+++ b/mt_metadata/processing/aurora/channel_nomenclature.py
@@ -193,7 +193,7 @@ class ChannelNomenclature(MetadataBase):
 
         """
         try:
-            return CHANNEL_MAPS[self.keyword.lower()]
+            return dict(CHANNEL_MAPS[self.keyword.lower()])
         except KeyError:
             msg = f"channel mt_system {self.keyword} unknown)"
             raise NotImplementedError(msg)
-- 
2.43.0


From eb23b30b4061902fb9cdd7803a156f80eb8d06dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 18/42] fix: compare metadata with a dict, json string, series
 or element by loading it into the same class

---
 mt_metadata/base/metadata.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 31a8215..57a6279 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -413,14 +413,13 @@ class MetadataBase(DotNotationBaseModel):
             try:
                 # Attempt to load the other object into a new instance of MetadataBase
                 # This will ensure that the other object has the same attributes as self
-                other_obj = __class__().load(other)
+                other_obj = type(self)()
+                other_obj.load(other)
             except Exception as e:
                 logger.error(
                     f"Failed to load other object of type {type(other)}: {other}. Error is: {e} "
                 )
                 return False
-            if not other_obj:
-                return False
 
             if hasattr(other_obj, "to_dict") and callable(other_obj.to_dict):
                 other_dict = other_obj.to_dict(single=True, required=False)
-- 
2.43.0


From ee311a4453d568535c777b12110f983fb188c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 19/42] fix: report unsupported or incomplete input instead of
 failing on an unset variable

---
 mt_metadata/base/helpers.py                   |  2 +-
 mt_metadata/base/metadata.py                  | 20 ++++++-------
 mt_metadata/timeseries/experiment.py          | 26 ++++++++--------
 .../timeseries/filters/plotting_helpers.py    |  4 ++-
 .../timeseries/stationxml/fdsn_tools.py       |  6 +++-
 mt_metadata/timeseries/survey.py              |  2 ++
 .../timeseries/tools/from_many_mt_files.py    | 30 +++++++++----------
 mt_metadata/transfer_functions/core.py        |  5 ++--
 mt_metadata/transfer_functions/io/edi/edi.py  | 10 +++++--
 .../io/edi/metadata/data_section.py           |  6 ++--
 .../io/edi/metadata/define_measurement.py     |  5 +++-
 .../transfer_functions/io/emtfxml/emtfxml.py  |  2 +-
 .../io/emtfxml/metadata/data.py               |  2 +-
 .../transfer_functions/io/jfiles/jfile.py     |  2 +-
 .../transfer_functions/io/zfiles/zmm.py       |  2 +-
 .../io/zonge/metadata/gps.py                  |  2 +-
 .../transfer_functions/io/zonge/zonge.py      |  3 ++
 mt_metadata/utils/converters.py               |  8 ++---
 mt_metadata/utils/summarize.py                |  6 ++--
 mt_metadata/utils/validators.py               |  2 +-
 20 files changed, 82 insertions(+), 63 deletions(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index a0d8863..3077c3d 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -652,11 +652,11 @@ def recursive_split_getattr(base_object, name, sep="."):
         # with Pydantic, if the attribute does not exist an attribute error
         # will be raised, which is desired. The only issue will be if the
         # attribute is an alias, then TODO create a get from alias method.
+        prop = False
         try:
             value = getattr(base_object, key)
         except AttributeError:
             value = None
-            prop = False
         try:
             if isinstance(getattr(type(base_object), key), property):
                 prop = True
diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 57a6279..1e838a4 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1259,18 +1259,18 @@ class MetadataBase(DotNotationBaseModel):
         """
         if isinstance(json_str, str):
             try:
-                json_path = Path(json_str)
-                if json_path.exists():
-                    with open(json_path, "r", encoding="utf-8") as fid:
-                        json_dict = json.load(fid)
-            except OSError:
-                pass
-            json_dict = json.loads(json_str)
-        elif isinstance(json_str, Path):
-            if json_str.exists():
+                is_file = Path(json_str).is_file()
+            except (OSError, ValueError):
+                is_file = False
+            if is_file:
                 with open(json_str, "r", encoding="utf-8") as fid:
                     json_dict = json.load(fid)
-        elif not isinstance(json_str, (str, Path)):
+            else:
+                json_dict = json.loads(json_str)
+        elif isinstance(json_str, Path):
+            with open(json_str, "r", encoding="utf-8") as fid:
+                json_dict = json.load(fid)
+        else:
             msg = f"Input must be valid JSON string not {type(json_str)}"
             logger.error(msg)
             raise MTSchemaError(msg)
diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 479f3b9..385aa0b 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -350,18 +350,18 @@ class Experiment(MetadataBase):
         """
         if isinstance(json_str, str):
             try:
-                json_path = Path(json_str)
-                if json_path.exists():
-                    with open(json_path, "r", encoding="utf-8") as fid:
-                        json_dict = json.load(fid)
-            except OSError:
-                pass
-            json_dict = json.loads(json_str)
-        elif isinstance(json_str, Path):
-            if json_str.exists():
+                is_file = Path(json_str).is_file()
+            except (OSError, ValueError):
+                is_file = False
+            if is_file:
                 with open(json_str, "r", encoding="utf-8") as fid:
                     json_dict = json.load(fid)
-        elif not isinstance(json_str, (str, Path)):
+            else:
+                json_dict = json.loads(json_str)
+        elif isinstance(json_str, Path):
+            with open(json_str, "r", encoding="utf-8") as fid:
+                json_dict = json.load(fid)
+        else:
             msg = "Input must be valid JSON string not %"
             logger.error(msg, type(json_str))
             raise TypeError(msg % type(json_str))
@@ -450,10 +450,12 @@ class Experiment(MetadataBase):
 
 
         """
-        if fn:
-            experiment_element = et.parse(fn).getroot()
         if element is not None:
             experiment_element = element
+        elif fn:
+            experiment_element = et.parse(fn).getroot()
+        else:
+            raise ValueError("Need to input either a file name or an xml element")
 
         # need to set the lists for each layer, otherwise you get duplicates.
         for survey_element in list(experiment_element):
diff --git a/mt_metadata/timeseries/filters/plotting_helpers.py b/mt_metadata/timeseries/filters/plotting_helpers.py
index 80e6834..7bdf33b 100644
--- a/mt_metadata/timeseries/filters/plotting_helpers.py
+++ b/mt_metadata/timeseries/filters/plotting_helpers.py
@@ -28,6 +28,8 @@ def cast_angular_frequency_to_period_or_hertz(w, units):
         x_axis = (2.0 * np.pi) / w
     elif units.lower() == "frequency":
         x_axis = w / (2.0 * np.pi)
+    else:
+        raise ValueError(f"units must be 'period' or 'frequency', not {units}")
     return x_axis
 
 
@@ -221,7 +223,7 @@ def plot_response(
 
     if x_units.lower() == "period":
         x_label = "Period (s)"
-    elif x_units.lower() == "frequency":
+    else:
         x_label = "Frequency (Hz)"
 
     ax_phs.set_xlabel(x_label)
diff --git a/mt_metadata/timeseries/stationxml/fdsn_tools.py b/mt_metadata/timeseries/stationxml/fdsn_tools.py
index 136407a..b61f8af 100644
--- a/mt_metadata/timeseries/stationxml/fdsn_tools.py
+++ b/mt_metadata/timeseries/stationxml/fdsn_tools.py
@@ -242,10 +242,14 @@ def make_channel_code(sample_rate, measurement_type, azimuth, orientation="horiz
 
     period_code = get_period_code(sample_rate)
     sensor_code = get_measurement_code(measurement_type)
-    if isinstance(azimuth, (float, int)):
+    if isinstance(azimuth, (float, int, np.number)):
         orientation_code = get_orientation_code(azimuth, orientation=orientation)
     elif isinstance(azimuth, (str)):
         orientation_code = get_orientation_code(direction=azimuth)
+    else:
+        raise TypeError(
+            f"azimuth must be a number or a direction (x, y, z), not {type(azimuth)}"
+        )
 
     channel_code = f"{period_code}{sensor_code}{orientation_code}"
 
diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 6221b9a..e8c21ab 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -451,6 +451,7 @@ class Survey(MetadataBase):
                             )
                             fails.append(msg)
                             logger.error(msg)
+                            continue
                         if f_type.lower() in ["zpk"]:
                             f = PoleZeroFilter()
                         elif f_type.lower() in ["coefficient"]:
@@ -465,6 +466,7 @@ class Survey(MetadataBase):
                             msg = f"filter type {f_type} not supported."
                             fails.append(msg)
                             logger.error(msg)
+                            continue
 
                         f.from_dict(ff)
                         filters[f.name] = f
diff --git a/mt_metadata/timeseries/tools/from_many_mt_files.py b/mt_metadata/timeseries/tools/from_many_mt_files.py
index f0ce107..5031085 100644
--- a/mt_metadata/timeseries/tools/from_many_mt_files.py
+++ b/mt_metadata/timeseries/tools/from_many_mt_files.py
@@ -14,6 +14,7 @@ from xml.etree import cElementTree as et
 import pandas as pd
 
 from mt_metadata.timeseries import (
+    Auxiliary,
     Electric,
     Experiment,
     Magnetic,
@@ -265,24 +266,23 @@ class MT2StationXML(XMLInventoryMTExperiment):
         elif ch_type in ["magnetic"]:
             ch = Magnetic()
 
+        else:
+            ch = Auxiliary()
+
         ch.from_xml(self.read_xml_file(channel_fn))
 
         dp_filter = None
-        if ch.filter.name is not None:
-            find = False
-            for ii, filter_name in enumerate(ch.filter.name):
-                # create a dipole pole zero filter
-                if "dipole" in filter_name:
-                    find = True
-                    dp_filter = PoleZeroFilter()
-                    dp_filter.units_in = "V/m"
-                    dp_filter.units_out = "V"
-                    dp_filter.gain = ch.dipole_length
-                    dp_filter.name = f"electric_dipole_{ch.dipole_length:.3f}"
-                    dp_filter.comments = "electric dipole for electric field"
-                    break
-            if find:
-                ch.filter.name[ii] = dp_filter.name
+        for applied_filter in ch.filters:
+            # create a dipole pole zero filter
+            if "dipole" in applied_filter.name:
+                dp_filter = PoleZeroFilter()
+                dp_filter.units_in = "V/m"
+                dp_filter.units_out = "V"
+                dp_filter.gain = ch.dipole_length
+                dp_filter.name = f"electric_dipole_{ch.dipole_length:.3f}"
+                dp_filter.comments = "electric dipole for electric field"
+                applied_filter.name = dp_filter.name
+                break
 
         return ch, dp_filter
 
diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index eaa242c..1a480a7 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2379,9 +2379,8 @@ class TF:
                 zmm_obj.num_channels = 3
                 number_dict = {"hx": 1, "hy": 2, "hz": 3}
         else:
-            if self.has_impedance():
-                zmm_obj.num_channels = 4
-                number_dict = {"hx": 1, "hy": 2, "ex": 3, "ey": 4}
+            zmm_obj.num_channels = 4
+            number_dict = {"hx": 1, "hy": 2, "ex": 3, "ey": 4}
         if len(station_metadata.runs) == 0:
             run = self.make_zmm_run(zmm_obj, number_dict)
             station_metadata.add_run(run)
diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index e3dedcb..45ccde7 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -348,6 +348,11 @@ class EDI:
                 c_list = ["hx", "hy", "ex", "ey", "rhx", "rhy"]
             elif self.Data.nchan == 7:
                 c_list = ["hx", "hy", "hz", "ex", "ey", "rhx", "rhy"]
+            else:
+                raise ValueError(
+                    f"Cannot read spectra with {self.Data.nchan} channels, "
+                    "expected 4, 5, 6 or 7"
+                )
             self._read_spectra(lines, comp_list=c_list)
         elif self.Data._data_type_in == "z":
             self._read_mt(lines)
@@ -492,7 +497,6 @@ class EDI:
                             if ss.lower().find("freq") == 0
                         ][0]
                     )
-                    data_dict[key] = []
                     avgt = float(
                         [
                             ss.split("=")[1]
@@ -500,9 +504,11 @@ class EDI:
                             if ss.lower().find("avgt") == 0
                         ][0]
                     )
+                    data_dict[key] = []
                     avgt_dict[key] = avgt
-                except ValueError:
+                except (IndexError, ValueError):
                     self.logger.debug("did not find frequency key")
+                    data_find = False
             elif data_find and line.find(">") == -1 and line.find("!") == -1:
                 data_dict[key] += [float(ll) for ll in line.strip().split()]
             elif line.find(">spectra") == -1:
diff --git a/mt_metadata/transfer_functions/io/edi/metadata/data_section.py b/mt_metadata/transfer_functions/io/edi/metadata/data_section.py
index 5c25001..f2cc1e7 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/data_section.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/data_section.py
@@ -321,10 +321,10 @@ class DataSection(MetadataBase):
 
         logger.debug("Writing out data a impedances")
 
-        if self._data_type_out == "z":
-            data_lines = ["\n>=mtsect\n".upper()]
-        elif self._data_type_out == "spectra":
+        if self._data_type_out == "spectra":
             data_lines = ["\n>spectrasect\n".upper()]
+        else:
+            data_lines = ["\n>=mtsect\n".upper()]
 
         for key in self._kw_list[0:4]:
             data_lines.append(f"{' '*4}{key.upper()}={getattr(self, key)}\n")
diff --git a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
index 15e3b1d..66a67bc 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
@@ -264,7 +264,7 @@ class DefineMeasurement(MetadataBase):
     def validate_position(cls, value, info: ValidationInfo):
         if "lat" in info.field_name:
             position_type = "latitude"
-        elif "lon" in info.field_name:
+        else:
             position_type = "longitude"
         return validate_position(value, position_type)
 
@@ -409,6 +409,9 @@ class DefineMeasurement(MetadataBase):
                     value = EMeasurement(**line)
                     if value.azm == 0:
                         value.azm = value.azimuth
+                else:
+                    logger.debug(f"Skipping channel of unknown type {ch_type}")
+                    continue
                 if key in self.measurements.keys():
                     existing_ch = self.measurements[key]
                     existing_line = existing_ch.write_meas_line()
diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 41c8e5d..c2dcde7 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -1114,7 +1114,7 @@ class EMTFXML:
                     # if the channel does not exist, create it.
                     if ch.name.lower() in ["ex", "ey"]:  # electric channels
                         c = Electric()
-                    elif ch.name.lower() in ["hx", "hy", "hz"]:  # magnetic channels
+                    else:  # magnetic channels
                         c = Magnetic()
                     c.from_dict(ch.to_dict(single=True))
                     r.add_channel(c)
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
index dcfa9d9..23e2f95 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
@@ -331,7 +331,7 @@ class TransferFunction(MetadataBase):
                     value = complex(float(value[0]), float(value[1]))
                 elif dtype in (float, int):
                     value = dtype(item["value"])
-                elif dtype in ["unknown"]:
+                else:
                     value = item["value"].split()
                     if len(value) > 1:
                         value = complex(float(value[0]), float(value[1]))
diff --git a/mt_metadata/transfer_functions/io/jfiles/jfile.py b/mt_metadata/transfer_functions/io/jfiles/jfile.py
index d825310..6b849bf 100644
--- a/mt_metadata/transfer_functions/io/jfiles/jfile.py
+++ b/mt_metadata/transfer_functions/io/jfiles/jfile.py
@@ -345,7 +345,7 @@ class JFile:
             for ii, comp in enumerate(["ex", "ey", "hx", "hy"], 1):
                 if comp.startswith("e"):
                     ch = Electric(component=comp, channel_id=ii)
-                elif comp.startswith("h"):
+                else:
                     ch = Magnetic(component=comp, channel_id=ii)
                 r1.add_channel(ch)
 
diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index f725c36..04d0bfc 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -190,7 +190,7 @@ class ZMMHeader(object):
 
                 if comp in ["ex", "ey"]:
                     ch = Electric()
-                elif comp in ["hx", "hy", "hz"]:
+                else:
                     ch = Magnetic()
                 ch.component = comp
                 ch.measurement_azimuth = channel_dict[
diff --git a/mt_metadata/transfer_functions/io/zonge/metadata/gps.py b/mt_metadata/transfer_functions/io/zonge/metadata/gps.py
index b262957..3c1cb02 100644
--- a/mt_metadata/transfer_functions/io/zonge/metadata/gps.py
+++ b/mt_metadata/transfer_functions/io/zonge/metadata/gps.py
@@ -88,6 +88,6 @@ class GPS(MetadataBase):
     def validate_position(cls, value, info: ValidationInfo):
         if info.field_name in ["lat"]:
             field_name = "latitude"
-        elif info.field_name in ["lon"]:
+        else:
             field_name = "longitude"
         return location_helpers.validate_position(value, field_name)
diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index b539f5b..7bf4de8 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -143,11 +143,14 @@ class ZongeMTAvg:
         data_lines = self.header.read_header(lines)
 
         data_list = []
+        comp = None
         for line in data_lines:
             if "$" in line:
                 key, comp = [ss.strip() for ss in line.split("=")]
             elif "skp" in line.lower() or len(line) < 2:
                 continue
+            elif comp is None:
+                raise ValueError(f"Found data before a component in {self.fn}")
             else:
                 line = line.replace("*", "0.50")
                 values = [comp.lower()] + [float(ss.strip()) for ss in line.split(",")]
diff --git a/mt_metadata/utils/converters.py b/mt_metadata/utils/converters.py
index 4e152a6..35d170b 100644
--- a/mt_metadata/utils/converters.py
+++ b/mt_metadata/utils/converters.py
@@ -389,6 +389,7 @@ def generate_pydantic_basemodel(json_schema_filename: Union[str, Path]) -> str:
     for field_name, field_attrs in properties.items():
         if field_name in ["units", "unit"]:
             has_units = True
+            field_type = TYPE_MAPPING.get(field_attrs.get("type", "string"), "Any")
         # Check if the field is a comment
         elif field_name in ["comments", "comment"]:
             has_comment = True
@@ -498,10 +499,9 @@ def generate_pydantic_basemodel(json_schema_filename: Union[str, Path]) -> str:
                 field_parts.append(f"{TAB}{attr_name}={repr(attr_value)},")
 
         # Add json_schema_extra as a dictionary
-        if json_schema_extra:
-            json_extra_line = f"{TAB}json_schema_extra=" + "{"
-            for jkey, jvalue in json_schema_extra.items():
-                json_extra_line += f"'{jkey}':{repr(jvalue)},"
+        json_extra_line = f"{TAB}json_schema_extra=" + "{"
+        for jkey, jvalue in json_schema_extra.items():
+            json_extra_line += f"'{jkey}':{repr(jvalue)},"
         json_extra_line += "},\n"
         field_parts.append(json_extra_line)
 
diff --git a/mt_metadata/utils/summarize.py b/mt_metadata/utils/summarize.py
index 6ff7396..c9eec71 100644
--- a/mt_metadata/utils/summarize.py
+++ b/mt_metadata/utils/summarize.py
@@ -410,10 +410,8 @@ def summarize_standards(
     summary_dict = summarize_pydantic_standards(module)
     if output_type == "array":
         return summary_to_array(summary_dict, dtype=dtype)
-    elif output_type == "dataframe" and csv_fn is None:
-        return summary_to_dataframe(summary_dict)
 
-    elif csv_fn:
-        summary_df = summary_to_dataframe(summary_dict)
+    summary_df = summary_to_dataframe(summary_dict)
+    if csv_fn:
         summary_df.to_csv(csv_fn, index=False)
     return summary_df
diff --git a/mt_metadata/utils/validators.py b/mt_metadata/utils/validators.py
index 0afbee0..d464f22 100644
--- a/mt_metadata/utils/validators.py
+++ b/mt_metadata/utils/validators.py
@@ -561,7 +561,7 @@ def validate_default(value_dict):
                     value = "none"
                 elif value_dict["type"] in ["bool", bool]:
                     value = False
-                elif value_dict["type"] in ["h5py_reference"]:
+                else:
                     value = None
         else:
             value = validate_value_type(
-- 
2.43.0


From b92fbf873e347f269ba6280b703564a16eada743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 20/42] fix: refer to attributes the classes declare (field
 notes, run setter, FIR plot, EDI sections, Zonge header)

---
 mt_metadata/timeseries/filters/fir_filter.py   |  2 +-
 mt_metadata/transfer_functions/core.py         |  9 +--------
 mt_metadata/transfer_functions/io/edi/edi.py   |  2 +-
 .../transfer_functions/io/emtfxml/emtfxml.py   | 18 +++++++++---------
 .../transfer_functions/io/zonge/zonge.py       |  6 +++---
 5 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/mt_metadata/timeseries/filters/fir_filter.py b/mt_metadata/timeseries/filters/fir_filter.py
index 1684167..90aa7d2 100644
--- a/mt_metadata/timeseries/filters/fir_filter.py
+++ b/mt_metadata/timeseries/filters/fir_filter.py
@@ -180,7 +180,7 @@ class FIRFilter(FilterBase):
             return 1.0
 
     def plot_fir_response(self):
-        w, h = signal.freqz(self.full_coefficients)
+        w, h = signal.freqz(self.symmetry_corrected_coefficients)
         fig = plt.figure()
         plt.title("Digital filter frequency response")
         ax1 = fig.add_subplot(111)
diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 1a480a7..441d36d 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -461,12 +461,6 @@ class TF:
             runs = ListDict()
             runs.append(run_metadata)
             channels = ListDict()
-            if self.component is not None:
-                key = str(self.component)
-
-                channels.append(self.station_metadata.runs[0].channels[key])
-                # add existing channels
-                channels.extend(self.run_metadata.channels, skip_keys=[key, "0"])
             # add channels from input metadata
             channels.extend(run_metadata.channels)
 
@@ -2057,11 +2051,10 @@ class TF:
         edi_obj.station_metadata = self.station_metadata
 
         # input data section
-        edi_obj.Data.data_type = self.station_metadata.data_type
         edi_obj.Data.nfreq = self.period.size
         edi_obj.Data.sectid = self.station
         edi_obj.Data.nchan = len(edi_obj.Measurement.channel_ids.keys())
-        edi_obj.Data.maxblks = 999
+        edi_obj.Data.maxblocks = 999
 
         for comp in ["ex", "ey", "hx", "hy", "hz", "rrhx", "rrhy"]:
             if hasattr(edi_obj.Measurement, f"meas_{comp}"):
diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 45ccde7..9abe864 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1176,7 +1176,7 @@ class EDI:
                     else:
                         sm.transfer_function.remote_references = value.split()
             elif key in ["processedby", "processed_by"]:
-                sm.transfer_function.processed_by.name = value
+                sm.transfer_function.processed_by.author = value
             elif key in ["runlist", "run_list"]:
                 if value.count(",") > 0:
                     runs = value.split(",")
diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index c2dcde7..6c5e8b5 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -612,7 +612,7 @@ class EMTFXML:
             }
 
             dipole_names = []
-            for d in self.field_notes.run_list[0].dipole:
+            for d in self.field_notes._run_list[0].dipole:
                 if isinstance(d.name, str):
                     dipole_names.append(d.name.lower())
                 else:
@@ -622,13 +622,13 @@ class EMTFXML:
             elif None in dipole_names:
                 index = dipole_names.index(None)
             else:
-                self.field_notes.run_list[0].magnetometer.append(
+                self.field_notes._run_list[0].dipole.append(
                     emtf_xml.Dipole(name=comp)
                 )
                 index = -1
 
             setattr(
-                self.field_notes.run_list[0].dipole[index],
+                self.field_notes._run_list[0].dipole[index],
                 e_dict[fkey],
                 value,
             )
@@ -680,7 +680,7 @@ class EMTFXML:
             }
 
             mag_names = []
-            for d in self.field_notes.run_list[0].magnetometer:
+            for d in self.field_notes._run_list[0].magnetometer:
                 if isinstance(d.name, str):
                     mag_names.append(d.name.lower())
                 else:
@@ -691,13 +691,13 @@ class EMTFXML:
             elif None in mag_names:
                 index = mag_names.index(None)
             else:
-                self.field_notes.run_list[0].magnetometer.append(
+                self.field_notes._run_list[0].magnetometer.append(
                     emtf_xml.Magnetometer(name=comp)
                 )
                 index = -1
 
             setattr(
-                self.field_notes.run_list[0].magnetometer[index],
+                self.field_notes._run_list[0].magnetometer[index],
                 m_dict[fkey],
                 value,
             )
@@ -780,13 +780,13 @@ class EMTFXML:
             if comment.count(":") >= 1:
                 key, value = [c.strip() for c in comment.split(":", 1)]
                 if "fieldnotes" in key:
-                    if len(self.field_notes.run_list) == 0:
-                        self.field_notes.run_list.append(emtf_xml.Run())
+                    if len(self.field_notes._run_list) == 0:
+                        self.field_notes._run_list.append(emtf_xml.Run())
 
                 if "datalogger" in key:
                     key, value = self._parse_comments_data_logger(key, value)
                     try:
-                        self.field_notes.run_list[0].update_attribute(key, value)
+                        self.field_notes._run_list[0].update_attribute(key, value)
                         key = None
                         value = None
                     except Exception:
diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 7bf4de8..66452ee 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -505,11 +505,11 @@ class ZongeMTAvg:
     @station_metadata.setter
     def station_metadata(self, sm):
         self.header.station = sm.id
-        self.header.latitdude = sm.location.latitude
+        self.header.latitude = sm.location.latitude
         self.header.longitude = sm.location.longitude
 
-        if hasattr(sm.run[0].ex):
-            self.header.rx.length = sm.run[0].ex.dipole_length
+        if len(sm.runs) > 0 and sm.runs[0].has_channel("ex"):
+            self.header.rx.length = sm.runs[0].get_channel("ex").dipole_length
 
     @property
     def survey_metadata(self) -> Survey:
-- 
2.43.0


From e83ee8dc66b53c8dabb58c2d0a59171e1a4e51ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 21/42] fix: read a survey holding a single filter of a kind

---
 mt_metadata/timeseries/experiment.py               | 10 +++++-----
 mt_metadata/timeseries/filters/pole_zero_filter.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 385aa0b..85d872a 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -567,7 +567,7 @@ class Experiment(MetadataBase):
                         mt_filter = PoleZeroFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = PoleZeroFilter(value)
+                    mt_filter = PoleZeroFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["coefficient_filter"]:
@@ -576,7 +576,7 @@ class Experiment(MetadataBase):
                         mt_filter = CoefficientFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = CoefficientFilter(value)
+                    mt_filter = CoefficientFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["time_delay_filter"]:
@@ -585,7 +585,7 @@ class Experiment(MetadataBase):
                         mt_filter = TimeDelayFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = TimeDelayFilter(value)
+                    mt_filter = TimeDelayFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["frequency_response_table_filter"]:
@@ -594,7 +594,7 @@ class Experiment(MetadataBase):
                         mt_filter = FrequencyResponseTableFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FrequencyResponseTableFilter(value)
+                    mt_filter = FrequencyResponseTableFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["fir_filter"]:
@@ -603,7 +603,7 @@ class Experiment(MetadataBase):
                         mt_filter = FIRFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FIRFilter(value)
+                    mt_filter = FIRFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
         return return_dict
diff --git a/mt_metadata/timeseries/filters/pole_zero_filter.py b/mt_metadata/timeseries/filters/pole_zero_filter.py
index 4e2f104..b25a0a7 100644
--- a/mt_metadata/timeseries/filters/pole_zero_filter.py
+++ b/mt_metadata/timeseries/filters/pole_zero_filter.py
@@ -220,9 +220,9 @@ class PoleZeroFilter(FilterBase):
         """
         pass_band = self.pass_band(frequencies, window_len, tol)
         if pass_band is None:
-            return np.NAN
+            return np.nan
         if pass_band.size == 0:
-            return np.NAN
+            return np.nan
 
         if estimate == "mean":
             return pass_band.mean()
-- 
2.43.0


From 2388ab4f806495ec987bc096594f5e7342544d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 22/42] fix: writing an EDI or EMTF XML file leaves the data,
 rotation angles and section order of the object unchanged

---
 mt_metadata/transfer_functions/io/edi/edi.py  | 50 ++++++++++---------
 .../transfer_functions/io/emtfxml/emtfxml.py  |  2 +
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 9abe864..0c4d595 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -766,44 +766,45 @@ class EDI:
 
         # write out rotation angles
         zrot_lines = [self._data_header_str.format("impedance rotation angles".upper())]
-        if self.rotation_angle is None:
-            self.rotation_angle = np.zeros(self.frequency.size)
-        elif isinstance(self.rotation_angle, (float, int)):
-            self.rotation_angle = np.repeat(self.rotation_angle, self.frequency.size)
-        elif len(self.rotation_angle) != self.frequency.size:
+        rotation_angle = self.rotation_angle
+        if rotation_angle is None:
+            rotation_angle = np.zeros(self.frequency.size)
+        elif isinstance(rotation_angle, (float, int)):
+            rotation_angle = np.repeat(rotation_angle, self.frequency.size)
+        elif len(rotation_angle) != self.frequency.size:
             raise ValueError(
                 "rotation angle must be the same length and the number of "
-                f"frequencies {len(self.rotation_angle)} != {self.frequency.size}"
+                f"frequencies {len(rotation_angle)} != {self.frequency.size}"
             )
-        zrot_lines += self._write_data_block(self.rotation_angle, "zrot")
+        zrot_lines += self._write_data_block(rotation_angle, "zrot")
 
         # write out data only impedance and tipper
         z_data_lines = [self._data_header_str.format("impedances".upper())]
-        self.z = np.nan_to_num(self.z)
-        self.z_err = np.nan_to_num(self.z_err)
-        self.t = np.nan_to_num(self.t)
-        self.t_err = np.nan_to_num(self.t_err)
-        if self.z is not None:
+        z = np.nan_to_num(self.z)
+        z_err = np.nan_to_num(self.z_err)
+        t = np.nan_to_num(self.t)
+        t_err = np.nan_to_num(self.t_err)
+        if z is not None:
             for ii in range(2):
                 for jj in range(2):
                     z_lines_real = self._write_data_block(
-                        self.z[:, ii, jj].real, self._z_labels[2 * ii + jj][0]
+                        z[:, ii, jj].real, self._z_labels[2 * ii + jj][0]
                     )
                     z_lines_imag = self._write_data_block(
-                        self.z[:, ii, jj].imag, self._z_labels[2 * ii + jj][1]
+                        z[:, ii, jj].imag, self._z_labels[2 * ii + jj][1]
                     )
                     z_lines_var = self._write_data_block(
-                        self.z_err[:, ii, jj] ** 2.0,
+                        z_err[:, ii, jj] ** 2.0,
                         self._z_labels[2 * ii + jj][2],
                     )
 
                     z_data_lines += z_lines_real
                     z_data_lines += z_lines_imag
                     z_data_lines += z_lines_var
-        if self.t is None:
+        if t is None:
             trot_lines = [""]
             t_data_lines = [""]
-        elif np.all(self.t == 0):
+        elif np.all(t == 0):
             trot_lines = [""]
             t_data_lines = [""]
         else:
@@ -812,23 +813,23 @@ class EDI:
                 trot_lines = [
                     self._data_header_str.format("tipper rotation angles".upper())
                 ]
-                if isinstance(self.rotation_angle, float):
-                    trot = np.repeat(self.rotation_angle, self.frequency.size)
+                if isinstance(rotation_angle, float):
+                    trot = np.repeat(rotation_angle, self.frequency.size)
                 else:
-                    trot = self.rotation_angle
+                    trot = rotation_angle
                 trot_lines += self._write_data_block(np.array(trot), "trot")
 
                 # write out tipper lines
                 t_data_lines = [self._data_header_str.format("tipper".upper())]
                 for jj in range(2):
                     t_lines_real = self._write_data_block(
-                        self.t[:, 0, jj].real, self._t_labels[jj][0]
+                        t[:, 0, jj].real, self._t_labels[jj][0]
                     )
                     t_lines_imag = self._write_data_block(
-                        self.t[:, 0, jj].imag, self._t_labels[jj][1]
+                        t[:, 0, jj].imag, self._t_labels[jj][1]
                     )
                     t_lines_var = self._write_data_block(
-                        self.t_err[:, 0, jj] ** 2.0, self._t_labels[jj][2]
+                        t_err[:, 0, jj] ** 2.0, self._t_labels[jj][2]
                     )
 
                     t_data_lines += t_lines_real
@@ -852,7 +853,8 @@ class EDI:
 
         with open(new_edi_fn, "w", encoding="utf-8") as fid:
             fid.write("".join(edi_lines))
-        self.fn = new_edi_fn
+        # setting fn would read the rounded values back
+        self._fn = Path(new_edi_fn)
         return new_edi_fn
 
     def _write_data_block(
diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 6c5e8b5..ad44eb6 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -384,6 +384,8 @@ class EMTFXML:
             value = getattr(self, key)
             if hasattr(value, "to_xml") and callable(getattr(value, "to_xml")):
                 if key == "processing_info":
+                    # the sections to skip are dropped from a copy
+                    value = value.copy()
                     if skip_field_notes:
                         try:
                             value.remote_info._order.remove("field_notes")
-- 
2.43.0


From 4b19209409a7b1ae7b2ee6ea6b4fb9076a2a47d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 23/42] fix: hand out copies of the EMTF estimate and data type
 tables and of the FDSN code tables

---
 .../timeseries/stationxml/fdsn_tools.py       |  4 ++--
 .../transfer_functions/io/emtfxml/emtfxml.py  | 20 +++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/fdsn_tools.py b/mt_metadata/timeseries/stationxml/fdsn_tools.py
index b61f8af..8334961 100644
--- a/mt_metadata/timeseries/stationxml/fdsn_tools.py
+++ b/mt_metadata/timeseries/stationxml/fdsn_tools.py
@@ -304,9 +304,9 @@ def read_channel_code(channel_code):
         raise ValueError(msg)
 
     return {
-        "period": period_range,
+        "period": dict(period_range),
         "measurement": component,
-        "orientation": orientation,
+        "orientation": dict(orientation),
     }
 
 
diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index ad44eb6..788b63a 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -427,34 +427,34 @@ class EMTFXML:
         if self.data.z_var is not None:
             if not np.all(self.data.z_var == 0.0):
                 self.statistical_estimates.estimates_list.append(
-                    estimates_dict["variance"]
+                    estimates_dict["variance"].copy()
                 )
         elif self.data.t_var is not None:
             if not np.all(self.data.t_var == 0.0):
                 self.statistical_estimates.estimates_list.append(
-                    estimates_dict["variance"]
+                    estimates_dict["variance"].copy()
                 )
 
         if self.data.z_invsigcov is not None:
             if not np.all(self.data.z_invsigcov == 0.0):
                 self.statistical_estimates.estimates_list.append(
-                    estimates_dict["inverse_signal_power"]
+                    estimates_dict["inverse_signal_power"].copy()
                 )
         elif self.data.t_invsigcov is not None:
             if not np.all(self.data.t_invsigcov == 0.0):
                 self.statistical_estimates.estimates_list.append(
-                    estimates_dict["inverse_signal_power"]
+                    estimates_dict["inverse_signal_power"].copy()
                 )
 
         if self.data.z_residcov is not None:
             if not np.all(self.data.z_residcov == 0.0):
                 self.statistical_estimates.estimates_list.append(
-                    estimates_dict["residual_covariance"]
+                    estimates_dict["residual_covariance"].copy()
                 )
         elif self.data.t_residcov is not None:
             if not np.all(self.data.t_residcov == 0.0):
                 self.statistical_estimates.estimates_list.append(
-                    estimates_dict["residual_covariance"]
+                    estimates_dict["residual_covariance"].copy()
                 )
 
     def _get_data_types(self):
@@ -468,11 +468,15 @@ class EMTFXML:
         self.data_types.data_types_list = []
         if self.data.z is not None:
             if not np.all(self.data.z == 0.0):
-                self.data_types.data_types_list.append(data_types_dict["impedance"])
+                self.data_types.data_types_list.append(
+                    data_types_dict["impedance"].copy()
+                )
 
         if self.data.t is not None:
             if not np.all(self.data.t == 0.0):
-                self.data_types.data_types_list.append(data_types_dict["tipper"])
+                self.data_types.data_types_list.append(
+                    data_types_dict["tipper"].copy()
+                )
 
     def _update_site_layout(self):
         """
-- 
2.43.0


From eab1f4d5844aa3edf0879a5dee6a84feff8bcdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 24/42] revert the change to feature_weight_spec.py

---
 mt_metadata/features/weights/feature_weight_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/features/weights/feature_weight_spec.py b/mt_metadata/features/weights/feature_weight_spec.py
index 30023c0..01a3e88 100644
--- a/mt_metadata/features/weights/feature_weight_spec.py
+++ b/mt_metadata/features/weights/feature_weight_spec.py
@@ -105,7 +105,7 @@ class FeatureWeightSpec(MetadataBase):
                     logger.debug(
                         f"pre_process_feature: Creating {feature_cls.__name__} instance"
                     )
-                    data = {**data, "feature": feature_cls(**feature_data)}
+                    data["feature"] = feature_cls(**feature_data)
                 else:
                     logger.warning(
                         f"pre_process_feature: Unknown feature name '{feature_name}', using Feature"
-- 
2.43.0


From 4b08559fa5021a9bb6791c085fe67ce4afd36b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 25/42] fix: filters with array fields survive export to dict,
 JSON and XML

---
 mt_metadata/base/helpers.py                  | 43 +++++++++++++++++---
 mt_metadata/base/metadata.py                 | 11 ++---
 mt_metadata/timeseries/filters/fir_filter.py | 18 ++++----
 3 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 3077c3d..9773193 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -755,6 +755,8 @@ def get_type(name, attr_dict):
 def recursive_split_xml(element, item, base, name, attr_dict=None):
     """ """
     key = None
+    if isinstance(item, (np.ndarray, np.generic)):
+        item = item.tolist()
     if isinstance(item, dict):
         for key, value in item.items():
             attr_name = ".".join([base, key])
@@ -770,8 +772,10 @@ def recursive_split_xml(element, item, base, name, attr_dict=None):
     elif item is None:
         # Leave element.text as None so XML has empty element (no text)
         pass
-    elif isinstance(item, (float, int)):
+    elif isinstance(item, (float, int, complex, Path)):
         element.text = str(item)
+    elif hasattr(item, "unicode_string"):
+        element.text = item.unicode_string()
     else:
         # if the value is an hdf5 reference make it a string
         if "reference" in str(type(item)).lower():
@@ -920,7 +924,7 @@ class NumpyEncoder(json.JSONEncoder):
         elif isinstance(obj, (np.float16, np.float32, np.float64)):
             return float(obj)
         elif isinstance(obj, (np.ndarray)):
-            if obj.dtype == complex:
+            if np.iscomplexobj(obj):
                 return {"real": obj.real.tolist(), "imag": obj.imag.tolist()}
             else:
                 return obj.tolist()
@@ -934,6 +938,26 @@ class NumpyEncoder(json.JSONEncoder):
         return json.JSONEncoder.default(self, obj)
 
 
+def decode_complex(obj):
+    """
+    Turn the {"real": [...], "imag": [...]} written by :class:`NumpyEncoder` for a
+    complex array back into that array, use as `object_hook` when reading JSON.
+
+    :param obj: JSON object
+    :type obj: dict
+    :return: complex array or the unchanged object
+    :rtype: np.ndarray or dict
+
+    """
+    if set(obj) == {"real", "imag"} and all(
+        isinstance(part, list) for part in obj.values()
+    ):
+        return np.array(obj["real"], dtype=float) + 1j * np.array(
+            obj["imag"], dtype=float
+        )
+    return obj
+
+
 def validate_name(name, pattern=None):
     """
     Validate name
@@ -1146,7 +1170,16 @@ def object_to_array(value, dtype=float):
             msg = f"String input must be a single number or a list of numbers, not '{value}'"
             raise TypeError(msg)
 
-        elif has_numbers(value) and not is_numeric_string(value):
+        if "j" in value and np.issubdtype(dtype, np.complexfloating):
+            try:
+                return np.array(
+                    [complex(v) for v in value.strip(" []").replace(",", " ").split()],
+                    dtype=dtype,
+                )
+            except ValueError:
+                pass
+
+        if has_numbers(value) and not is_numeric_string(value):
             value = extract_numbers(value)
             return np.array(value, dtype=dtype)
 
@@ -1166,9 +1199,9 @@ def object_to_array(value, dtype=float):
                 f"input values must be a list, tuple, or np.ndarray, not {type(value)}"
             )
             raise TypeError(msg)
-    elif isinstance(value, (int, float)):
+    elif isinstance(value, (int, float, complex)):
         # Handle single numeric input
-        return np.array([float(value)], dtype=dtype)
+        return np.array([value], dtype=dtype)
     elif isinstance(value, bytes):
         # Handle bytes input (e.g., from binary files)
         try:
diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 1e838a4..f2d2953 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1124,10 +1124,7 @@ class MetadataBase(DotNotationBaseModel):
                 value = None
             if required:
                 if isinstance(value, (np.ndarray)):
-                    if name == "zeros" or name == "poles":
-                        meta_dict[name] = value
-                    elif value.all() != 0:
-                        meta_dict[name] = value
+                    meta_dict[name] = value
                 elif hasattr(value, "size"):
                     if value.size > 0:
                         meta_dict[name] = value
@@ -1264,12 +1261,12 @@ class MetadataBase(DotNotationBaseModel):
                 is_file = False
             if is_file:
                 with open(json_str, "r", encoding="utf-8") as fid:
-                    json_dict = json.load(fid)
+                    json_dict = json.load(fid, object_hook=helpers.decode_complex)
             else:
-                json_dict = json.loads(json_str)
+                json_dict = json.loads(json_str, object_hook=helpers.decode_complex)
         elif isinstance(json_str, Path):
             with open(json_str, "r", encoding="utf-8") as fid:
-                json_dict = json.load(fid)
+                json_dict = json.load(fid, object_hook=helpers.decode_complex)
         else:
             msg = f"Input must be valid JSON string not {type(json_str)}"
             logger.error(msg)
diff --git a/mt_metadata/timeseries/filters/fir_filter.py b/mt_metadata/timeseries/filters/fir_filter.py
index 90aa7d2..5ab266a 100644
--- a/mt_metadata/timeseries/filters/fir_filter.py
+++ b/mt_metadata/timeseries/filters/fir_filter.py
@@ -7,7 +7,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 from pydantic import computed_field, Field, field_validator, PrivateAttr, ValidationInfo
 
-from mt_metadata.base.helpers import requires
+from mt_metadata.base.helpers import object_to_array, requires
 from mt_metadata.timeseries.filters import FilterBase, get_base_obspy_mapping
 
 try:
@@ -112,23 +112,21 @@ class FIRFilter(FilterBase):
         ),
     ]
 
-    @field_validator("coefficients")
+    @field_validator("coefficients", mode="before")
     @classmethod
     def validate_coefficients(
-        cls, value: list[float], info: ValidationInfo
-    ) -> list[float]:
+        cls, value: list[float] | np.ndarray | str | float | None, info: ValidationInfo
+    ) -> np.ndarray:
         """
         Validate the coefficients to ensure they are a list of floats.
         :param value: The value to validate.
         :param info: Validation information.
         :return: The validated value.
         """
-        if isinstance(value, (list, tuple, np.ndarray)):
-            return np.array(value, dtype=float)
-        elif isinstance(value, str):
-            return np.array(value.split(","), dtype=float)
-        else:
-            raise ValueError("Coefficients must be a list, tuple, or string.")
+        try:
+            return object_to_array(value)
+        except TypeError as error:
+            raise ValueError(f"Coefficients must be numbers, {error}")
 
     def make_obspy_mapping(self):
         mapping = get_base_obspy_mapping()
-- 
2.43.0


From 61bb432a9e68ef2b4e896f7e5992fcb4f6c1a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 26/42] fix: read back every filter kind an experiment writes

---
 mt_metadata/timeseries/experiment.py           | 18 +++++++++++-------
 mt_metadata/timeseries/survey.py               |  4 ++--
 .../timeseries/tools/from_many_mt_files.py     |  3 +++
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 85d872a..5b620a0 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -355,12 +355,12 @@ class Experiment(MetadataBase):
                 is_file = False
             if is_file:
                 with open(json_str, "r", encoding="utf-8") as fid:
-                    json_dict = json.load(fid)
+                    json_dict = json.load(fid, object_hook=helpers.decode_complex)
             else:
-                json_dict = json.loads(json_str)
+                json_dict = json.loads(json_str, object_hook=helpers.decode_complex)
         elif isinstance(json_str, Path):
             with open(json_str, "r", encoding="utf-8") as fid:
-                json_dict = json.load(fid)
+                json_dict = json.load(fid, object_hook=helpers.decode_complex)
         else:
             msg = "Input must be valid JSON string not %"
             logger.error(msg, type(json_str))
@@ -460,16 +460,20 @@ class Experiment(MetadataBase):
         # need to set the lists for each layer, otherwise you get duplicates.
         for survey_element in list(experiment_element):
             survey_dict = helpers.element_to_dict(survey_element)
-            stations = self._pop_dictionary(survey_dict["survey"], "station")
+            stations = []
+            if "station" in survey_dict["survey"]:
+                stations = self._pop_dictionary(survey_dict["survey"], "station")
+            fd = survey_dict["survey"].pop("filters", None)
             survey_obj = Survey()
             survey_obj.from_dict(survey_dict, skip_none=skip_none)
-            fd = survey_dict["survey"].pop("filters")
             filter_dict = self._read_filter_dict(fd)
             survey_obj.filters.update(filter_dict)
 
             for station_dict in stations:
                 station_obj = Station()
-                runs = self._pop_dictionary(station_dict, "run")
+                runs = []
+                if "run" in station_dict:
+                    runs = self._pop_dictionary(station_dict, "run")
                 station_obj.from_dict(station_dict, skip_none=skip_none)
                 for run_dict in runs:
                     run_obj = Run()
@@ -597,7 +601,7 @@ class Experiment(MetadataBase):
                     mt_filter = FrequencyResponseTableFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
-            elif key in ["fir_filter"]:
+            elif key in ["fir_filter", "f_i_r_filter"]:
                 if isinstance(value, list):
                     for v in value:
                         mt_filter = FIRFilter(**v)
diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index e8c21ab..7eefe51 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -438,7 +438,7 @@ class Survey(MetadataBase):
         filters = ListDict()
         fails = []
         if value is None:
-            return
+            return filters
 
         if isinstance(value, list):
             if len(value) > 0:
@@ -460,7 +460,7 @@ class Survey(MetadataBase):
                             f = TimeDelayFilter()
                         elif f_type.lower() in ["fir"]:
                             f = FIRFilter()
-                        elif f_type.lower() in ["frequency response table"]:
+                        elif f_type.lower() in ["fap", "frequency response table"]:
                             f = FrequencyResponseTableFilter()
                         else:
                             msg = f"filter type {f_type} not supported."
diff --git a/mt_metadata/timeseries/tools/from_many_mt_files.py b/mt_metadata/timeseries/tools/from_many_mt_files.py
index 5031085..006d481 100644
--- a/mt_metadata/timeseries/tools/from_many_mt_files.py
+++ b/mt_metadata/timeseries/tools/from_many_mt_files.py
@@ -25,6 +25,7 @@ from mt_metadata.timeseries import (
 from mt_metadata.timeseries.filters import (
     CoefficientFilter,
     FIRFilter,
+    FrequencyResponseTableFilter,
     PoleZeroFilter,
     TimeDelayFilter,
 )
@@ -420,6 +421,8 @@ class MT2StationXML(XMLInventoryMTExperiment):
                 mt_filter = TimeDelayFilter()
             elif f_type in ["fir"]:
                 mt_filter = FIRFilter()
+            elif f_type in ["fap", "frequency response table"]:
+                mt_filter = FrequencyResponseTableFilter()
             else:
                 raise ValueError(f"No support for {f_type} currently.")
 
-- 
2.43.0


From 6b970662114cfdcfee613608079f67bc8a8cf415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 27/42] fix: default values satisfy the declaration of their
 own field

---
 mt_metadata/common/band.py                    |  6 ++---
 mt_metadata/common/units.py                   |  8 +++----
 mt_metadata/timeseries/filtered.py            |  2 +-
 .../io/edi/metadata/emeasurement.py           |  2 +-
 .../io/edi/metadata/hmeasurement.py           |  2 +-
 .../io/emtfxml/metadata/data_type.py          |  8 +++----
 .../io/emtfxml/metadata/estimate.py           |  6 ++---
 .../io/jfiles/metadata/birrp_block.py         |  4 ++--
 .../io/jfiles/metadata/birrp_parameters.py    | 24 +++++++++----------
 9 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/mt_metadata/common/band.py b/mt_metadata/common/band.py
index 7e0bd2b..53d9e25 100644
--- a/mt_metadata/common/band.py
+++ b/mt_metadata/common/band.py
@@ -39,7 +39,7 @@ class ClosedEnum(StrEnumerationBase):
 
 class Band(MetadataBase):
     decimation_level: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="Decimation level for the band",
@@ -53,7 +53,7 @@ class Band(MetadataBase):
     ]
 
     index_max: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="maximum band index",
@@ -67,7 +67,7 @@ class Band(MetadataBase):
     ]
 
     index_min: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="minimum band index",
diff --git a/mt_metadata/common/units.py b/mt_metadata/common/units.py
index fd43835..3d60ab5 100644
--- a/mt_metadata/common/units.py
+++ b/mt_metadata/common/units.py
@@ -188,12 +188,12 @@ class Unit(BaseModel):
         coerce_numbers_to_str=True,
     )
 
-    name: Annotated[str, Field(default=None, description="Common name of the unit.")]
+    name: Annotated[str | None, Field(default=None, description="Common name of the unit.")]
     description: Annotated[
-        str, Field(default=None, description="Description of the unit.")
+        str | None, Field(default=None, description="Description of the unit.")
     ]
     symbol: Annotated[
-        str,
+        str | None,
         Field(
             default=None,
             description="Symbol like representation of the unit",
@@ -201,7 +201,7 @@ class Unit(BaseModel):
         ),
     ]
     plot_label: Annotated[
-        str, Field(default=None, description="Plot label of the unit.")
+        str | None, Field(default=None, description="Plot label of the unit.")
     ]
 
     def __str__(self):
diff --git a/mt_metadata/timeseries/filtered.py b/mt_metadata/timeseries/filtered.py
index 73866df..efe6a2e 100644
--- a/mt_metadata/timeseries/filtered.py
+++ b/mt_metadata/timeseries/filtered.py
@@ -18,7 +18,7 @@ from mt_metadata.common.comment import Comment
 
 class AppliedFilter(MetadataBase):
     name: Annotated[
-        str,
+        str | None,
         Field(
             default=None,
             description="Name of the filter.",
diff --git a/mt_metadata/transfer_functions/io/edi/metadata/emeasurement.py b/mt_metadata/transfer_functions/io/edi/metadata/emeasurement.py
index 2f3bf34..38afddb 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/emeasurement.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/emeasurement.py
@@ -38,7 +38,7 @@ class EMeasurement(MetadataBase):
             default="",
             description="channel type, should start with an 'e'",
             alias=None,
-            pattern=r"^(RR|rr|[eE])[a-zA-Z0-9_]+$",
+            pattern=r"^((RR|rr|[eE])[a-zA-Z0-9_]+)?$",
             json_schema_extra={
                 "units": None,
                 "required": True,
diff --git a/mt_metadata/transfer_functions/io/edi/metadata/hmeasurement.py b/mt_metadata/transfer_functions/io/edi/metadata/hmeasurement.py
index bbf262a..478b4a4 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/hmeasurement.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/hmeasurement.py
@@ -31,7 +31,7 @@ class HMeasurement(MetadataBase):
             default="",
             description="channel type, should start with an 'h' or 'b'",
             alias=None,
-            pattern=r"^(RR|rr|[hHbB])[a-zA-Z0-9_]+$",
+            pattern=r"^((RR|rr|[hHbB])[a-zA-Z0-9_]+)?$",
             json_schema_extra={
                 "units": None,
                 "required": True,
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data_type.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data_type.py
index 8b529e6..d5c6a08 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data_type.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data_type.py
@@ -2,7 +2,7 @@
 # Imports
 # =====================================================
 from enum import Enum
-from typing import Annotated
+from typing import Annotated, Literal
 from xml.etree import cElementTree as et
 
 from pydantic import Field, field_validator, HttpUrl
@@ -83,7 +83,7 @@ class DataType(MetadataBase):
     ]
 
     intention: Annotated[
-        EstimateIntentionEnum,
+        EstimateIntentionEnum | Literal[""],
         Field(
             default="",
             description="The intension of the statistical estimate",
@@ -111,7 +111,7 @@ class DataType(MetadataBase):
     ]
 
     output: Annotated[
-        OutputEnum,
+        OutputEnum | Literal[""],
         Field(
             default="",
             description="Type of output channels in data type",
@@ -125,7 +125,7 @@ class DataType(MetadataBase):
     ]
 
     input: Annotated[
-        InputEnum,
+        InputEnum | Literal[""],
         Field(
             default="",
             description="Type of input channels in data type",
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/estimate.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/estimate.py
index ab21483..c49d2ff 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/estimate.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/estimate.py
@@ -1,7 +1,7 @@
 # =====================================================
 # Imports
 # =====================================================
-from typing import Annotated
+from typing import Annotated, Literal
 from xml.etree import cElementTree as et
 
 from pydantic import Field, HttpUrl
@@ -29,7 +29,7 @@ class Estimate(MetadataBase):
     ]
 
     type: Annotated[
-        ArrayDTypeEnum,
+        ArrayDTypeEnum | Literal[""],
         Field(
             default="",
             description="Type of number contained in the estimate",
@@ -71,7 +71,7 @@ class Estimate(MetadataBase):
     ]
 
     intention: Annotated[
-        EstimateIntentionEnum,
+        EstimateIntentionEnum | Literal[""],
         Field(
             default="",
             description="The intension of the statistical estimate",
diff --git a/mt_metadata/transfer_functions/io/jfiles/metadata/birrp_block.py b/mt_metadata/transfer_functions/io/jfiles/metadata/birrp_block.py
index 2ca3a78..0b8e62e 100644
--- a/mt_metadata/transfer_functions/io/jfiles/metadata/birrp_block.py
+++ b/mt_metadata/transfer_functions/io/jfiles/metadata/birrp_block.py
@@ -25,7 +25,7 @@ class BirrpBlock(MetadataBase):
     ]
 
     nskip: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="number of points to skip",
@@ -39,7 +39,7 @@ class BirrpBlock(MetadataBase):
     ]
 
     nread: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="number of points to read",
diff --git a/mt_metadata/transfer_functions/io/jfiles/metadata/birrp_parameters.py b/mt_metadata/transfer_functions/io/jfiles/metadata/birrp_parameters.py
index 20eaf3f..80ae97f 100644
--- a/mt_metadata/transfer_functions/io/jfiles/metadata/birrp_parameters.py
+++ b/mt_metadata/transfer_functions/io/jfiles/metadata/birrp_parameters.py
@@ -11,7 +11,7 @@ from mt_metadata.base import MetadataBase
 # =====================================================
 class BirrpParameters(MetadataBase):
     outputs: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="Number of output channels",
@@ -25,7 +25,7 @@ class BirrpParameters(MetadataBase):
     ]
 
     inputs: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="Number of input channels",
@@ -39,7 +39,7 @@ class BirrpParameters(MetadataBase):
     ]
 
     references: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="Number of reference channels",
@@ -123,7 +123,7 @@ class BirrpParameters(MetadataBase):
     ]
 
     nf1: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="index of first frequency",
@@ -137,7 +137,7 @@ class BirrpParameters(MetadataBase):
     ]
 
     nfinc: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="increment value of next frequency",
@@ -151,7 +151,7 @@ class BirrpParameters(MetadataBase):
     ]
 
     nfsect: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="total number of frequencies to process.",
@@ -221,7 +221,7 @@ class BirrpParameters(MetadataBase):
     ]
 
     nz: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="Use threshold for hz channels",
@@ -249,7 +249,7 @@ class BirrpParameters(MetadataBase):
     ]
 
     npcs: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="number of data segments used",
@@ -263,7 +263,7 @@ class BirrpParameters(MetadataBase):
     ]
 
     nar: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="order of auto-regressive prewhitening filter.",
@@ -277,7 +277,7 @@ class BirrpParameters(MetadataBase):
     ]
 
     imode: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="input data file mode",
@@ -291,7 +291,7 @@ class BirrpParameters(MetadataBase):
     ]
 
     jmode: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="input time mode",
@@ -305,7 +305,7 @@ class BirrpParameters(MetadataBase):
     ]
 
     ncomp: Annotated[
-        int,
+        int | None,
         Field(
             default=None,
             description="number of components",
-- 
2.43.0


From 6285fac0b09edd4ca5cd1eee634efa18a01478df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 28/42] fix: validators keep, refuse or report every value they
 are given

---
 mt_metadata/common/comment.py                             | 2 +-
 mt_metadata/common/person.py                              | 1 +
 mt_metadata/processing/aurora/processing.py               | 3 ---
 mt_metadata/timeseries/channel.py                         | 5 +++++
 mt_metadata/timeseries/run.py                             | 8 ++++----
 mt_metadata/timeseries/station.py                         | 8 ++++----
 mt_metadata/timeseries/survey.py                          | 1 +
 .../transfer_functions/io/jfiles/metadata/birrp_block.py  | 4 +---
 mt_metadata/transfer_functions/tf/transfer_function.py    | 4 ++++
 9 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/mt_metadata/common/comment.py b/mt_metadata/common/comment.py
index 7f2ae43..eef6eb3 100644
--- a/mt_metadata/common/comment.py
+++ b/mt_metadata/common/comment.py
@@ -82,7 +82,7 @@ class Comment(MetadataBase):
         if isinstance(value, str):
             return value
         elif isinstance(value, list):
-            return ",".join([v.strip() for v in value if isinstance(v, str)])
+            return ",".join([str(v).strip() for v in value if v is not None])
         elif value is None:
             return None
         else:
diff --git a/mt_metadata/common/person.py b/mt_metadata/common/person.py
index a28bb07..3147c6d 100644
--- a/mt_metadata/common/person.py
+++ b/mt_metadata/common/person.py
@@ -99,6 +99,7 @@ class GenericPerson(MetadataBase):
             return value
         elif value is None:
             return None
+        raise TypeError(f"Cannot make a URL from type {type(value)}.")
 
 
 class Person(GenericPerson):
diff --git a/mt_metadata/processing/aurora/processing.py b/mt_metadata/processing/aurora/processing.py
index 87466f9..979736a 100644
--- a/mt_metadata/processing/aurora/processing.py
+++ b/mt_metadata/processing/aurora/processing.py
@@ -122,9 +122,6 @@ class Processing(MetadataBase):
                     decimation_levels.append(obj)
 
         elif isinstance(value, list):
-            for obj in value:
-                if isinstance(obj, DecimationLevel):
-                    decimation_levels.append(obj)
             for obj in value:
                 if isinstance(obj, DecimationLevel):
                     decimation_levels.append(obj)
diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index a2dad04..1ecbc11 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -399,6 +399,11 @@ class ChannelBase(MetadataBase):
                     elif isinstance(item, dict):
                         # Direct dict representation
                         filters.append(AppliedFilter(**item))
+                    elif isinstance(item, str):
+                        # only the name of the filter
+                        filters.append(AppliedFilter(name=item))
+                    else:
+                        logger.warning(f"Unknown filter list item type: {type(item)}")
 
                 return filters
 
diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index a1308cd..d2404ff 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -278,13 +278,13 @@ class Run(MetadataBase):
         """
         Validate that the value is a list of strings.
         """
-        if value in [None, "None", "none", "NONE", "null"]:
-            return []
-
         if isinstance(value, np.ndarray):
             value = value.astype(str).tolist()
 
-        elif isinstance(value, (list, tuple)):
+        if value in [None, "", "None", "none", "NONE", "null"]:
+            return []
+
+        if isinstance(value, (list, tuple)):
             value = [str(v) for v in value]
 
         elif isinstance(value, (str)):
diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index 9ad437d..372c42f 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -239,13 +239,13 @@ class Station(MetadataBase):
         """
         Validate that the value is a list of strings.
         """
-        if value in NULL_VALUES:
-            return
-
         if isinstance(value, np.ndarray):
             value = value.astype(str).tolist()
 
-        elif isinstance(value, (list, tuple)):
+        if value in NULL_VALUES:
+            return []
+
+        if isinstance(value, (list, tuple)):
             value = [str(v) for v in value]
 
         elif isinstance(value, (str)):
diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 7eefe51..3714358 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -362,6 +362,7 @@ class Survey(MetadataBase):
         if isinstance(value, str):
             copyright_object = Copyright(release_license=value)
             return copyright_object.release_license
+        return value
 
     @field_validator("country", "state", mode="before")
     @classmethod
diff --git a/mt_metadata/transfer_functions/io/jfiles/metadata/birrp_block.py b/mt_metadata/transfer_functions/io/jfiles/metadata/birrp_block.py
index 0b8e62e..17849fe 100644
--- a/mt_metadata/transfer_functions/io/jfiles/metadata/birrp_block.py
+++ b/mt_metadata/transfer_functions/io/jfiles/metadata/birrp_block.py
@@ -95,9 +95,7 @@ class BirrpBlock(MetadataBase):
         if isinstance(value, str):
             # If it's a string, try to parse it as a list
             try:
-                return [
-                    int(i) for i in value.strip("[]").split(",") if i.strip().isdigit()
-                ]
+                return [int(i) for i in value.strip("[]").split(",") if i.strip()]
             except ValueError:
                 raise ValueError(f"Invalid string format for indices: {value}")
         if isinstance(value, int):
diff --git a/mt_metadata/transfer_functions/tf/transfer_function.py b/mt_metadata/transfer_functions/tf/transfer_function.py
index 836dc28..a8b5420 100644
--- a/mt_metadata/transfer_functions/tf/transfer_function.py
+++ b/mt_metadata/transfer_functions/tf/transfer_function.py
@@ -5,6 +5,7 @@ from typing import Annotated
 
 import numpy as np
 import pandas as pd
+from loguru import logger
 from pydantic import Field, field_validator
 
 from mt_metadata.base import MetadataBase
@@ -238,4 +239,7 @@ class TransferFunction(MetadataBase):
             coordinate_system = GeographicReferenceFrameEnum(value)
             return coordinate_system.value
         except ValueError:
+            logger.warning(
+                f"Coordinate system {value!r} is not known, using 'geographic'."
+            )
             return "geographic"
-- 
2.43.0


From 6e58c7653c0bc3cb75fa6b1685fa70fb2be23ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 29/42] fix: separators, sort order and header options given to
 a call take effect

---
 mt_metadata/base/helpers.py                     | 8 +++++---
 mt_metadata/timeseries/station.py               | 2 ++
 mt_metadata/transfer_functions/io/zfiles/zmm.py | 2 ++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 9773193..672409c 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -601,7 +601,9 @@ def recursive_split_dict(key, value, remainder, sep="."):
 
     key, *other = key.split(sep, 1)
     if other:
-        recursive_split_dict(other[0], value, remainder.setdefault(key, {}))
+        recursive_split_dict(
+            other[0], value, remainder.setdefault(key, {}), sep=sep
+        )
     else:
         remainder[key] = value
 
@@ -647,7 +649,7 @@ def recursive_split_getattr(base_object, name, sep="."):
 
     if other:
         base_object = getattr(base_object, key)
-        value, prop = recursive_split_getattr(base_object, other[0])
+        value, prop = recursive_split_getattr(base_object, other[0], sep=sep)
     else:
         # with Pydantic, if the attribute does not exist an attribute error
         # will be raised, which is desired. The only issue will be if the
@@ -688,7 +690,7 @@ def recursive_split_setattr(base_object, name, value, sep=".", skip_validation=F
 
     if other:
         base_object = getattr(base_object, key)
-        recursive_split_setattr(base_object, other[0], value)
+        recursive_split_setattr(base_object, other[0], value, sep=sep)
     else:
         # if the value is a list or dict then we need to add accordingly
         if isinstance(value, list):
diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index 372c42f..9b85fba 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -565,6 +565,8 @@ class Station(MetadataBase):
             run_starts.append(run_obj.time_period.start.split("+")[0])
 
         index = np.argsort(np.array(run_starts, dtype=np.datetime64))
+        if not ascending:
+            index = index[::-1]
 
         new_runs = ListDict()
         for ii in index:
diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index 04d0bfc..79f2a33 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -55,6 +55,8 @@ class ZMMHeader(object):
             "TRANSFER FUNCTIONS IN MEASUREMENT COORDINATES",
             "********* WITH FULL ERROR COVARIANCE ********",
         ]
+        for key, value in kwargs.items():
+            setattr(self, key, value)
 
     @property
     def fn(self):
-- 
2.43.0


From 467891bb3622b650f1363fcf05b302b72b73c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:46 +0000
Subject: [PATCH 30/42] fix: first run of a station is updated from its
 equipment like the others

---
 mt_metadata/timeseries/stationxml/xml_station_mt_station.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
index 273bf82..9df5d0d 100644
--- a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
+++ b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
@@ -312,7 +312,7 @@ class XMLStationMTStation(BaseTranslator):
             run_translator = XMLEquipmentMTRun()
             run_item = run_translator.xml_to_mt(equipment)
             run_index = station_obj.run_index(run_item.id)
-            if run_index:
+            if run_index is not None:
                 station_obj.runs[run_index].from_dict(run_item.to_dict())
             else:
                 station_obj.add_run(run_item)
-- 
2.43.0


From 5edaf4dc82e2e79f3dc729314de8b0fd21bc5ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 31/42] fix: magnetic channel given as a dictionary with
 component hx is a Magnetic channel

---
 mt_metadata/timeseries/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index d2404ff..ced7acf 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -1075,7 +1075,7 @@ class Run(MetadataBase):
                 if ch_type.lower().startswith("e"):
                     return Electric(**channel_obj)
                 elif (
-                    ch_type.lower().startswith("b")
+                    ch_type.lower().startswith("h")
                     or ch_type.lower().startswith("b")
                     or ch_type.lower() in ["magnetic"]
                 ):
-- 
2.43.0


From 0f55a9181619aafae677b183bc4e8502b9c17797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 32/42] fix: hand out a copy of the cached field tables

---
 mt_metadata/base/pydantic_helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index e6701e7..2ae8de4 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -41,6 +41,7 @@ Notes
 
 from __future__ import annotations
 
+import copy
 import enum
 import hashlib
 import json
@@ -121,14 +122,14 @@ def get_all_fields_serializable(
     with _CACHE_LOCK:
         # In-memory hit
         if model_cls in _FIELDS_TREE_CACHE:
-            return _FIELDS_TREE_CACHE[model_cls]
+            return copy.deepcopy(_FIELDS_TREE_CACHE[model_cls])
 
         # Try disk cache
         if not _DISABLE_DISK_CACHE:
             disk = _load_fields_from_disk(model_cls)
             if disk is not None:
                 _FIELDS_TREE_CACHE[model_cls] = disk
-                return disk
+                return copy.deepcopy(disk)
 
         # Sentinel to break cycles
         _FIELDS_TREE_CACHE[model_cls] = {}
@@ -140,7 +141,7 @@ def get_all_fields_serializable(
         if not _DISABLE_DISK_CACHE:
             _save_fields_to_disk(model_cls, tree)
 
-        return tree
+        return copy.deepcopy(tree)
 
 
 def flatten_field_tree_map(
-- 
2.43.0


From e12cb04eccb0ae4becad7c11335dea4240cc7807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 33/42] fix: spectra without a vertical channel fill all cells,
 negative electrode keeps its own type

---
 mt_metadata/transfer_functions/io/edi/edi.py         | 4 ++--
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 0c4d595..e7de0ba 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -625,11 +625,11 @@ class EDI:
                 re[0, 0] = s_arr[cc.rhx, cc.ex]
                 re[0, 1] = s_arr[cc.rhx, cc.ey]
                 re[1, 0] = s_arr[cc.rhy, cc.ex]
-                re[1, 0] = s_arr[cc.rhy, cc.ey]
+                re[1, 1] = s_arr[cc.rhy, cc.ey]
 
                 he[0, 0] = s_arr[cc.hx, cc.ex]
                 he[0, 1] = s_arr[cc.hx, cc.ey]
-                he[0, 1] = s_arr[cc.hy, cc.ex]
+                he[1, 0] = s_arr[cc.hy, cc.ex]
                 he[1, 1] = s_arr[cc.hy, cc.ey]
 
                 ee[0, 0] = s_arr[cc.ex, cc.ex]
diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 788b63a..17f0563 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -1487,7 +1487,7 @@ class EMTFXML:
                     dp.electrode.append(pot_p)
                     pot_n = emtf_xml.Electrode()  # type: ignore
                     pot_n.number = c.negative.id
-                    pot_n.comments = c.positive.type
+                    pot_n.comments = c.negative.type
                     pot_n.location = "s" if comp == "ex" else "w"
                     dp.electrode.append(pot_n)
                     fn.dipole.append(dp)
-- 
2.43.0


From a3090bcb9951f1ac68e6a1bacd0dafd4c2bf7d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 34/42] fix: EMTF XML comments on magnetometers and electrodes
 go to the channel they name

---
 .../transfer_functions/io/emtfxml/emtfxml.py  | 65 ++++++++++---------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 17f0563..2ed9d25 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -584,6 +584,35 @@ class EMTFXML:
 
         return key, value
 
+    def _get_layout_channel(self, comp: str) -> emtf_xml.Electric | emtf_xml.Magnetic:
+        """
+        Get the site layout channel of a component, added if not there yet.
+
+        Parameters
+        ----------
+        comp : str
+            component name
+
+        Returns
+        -------
+        emtf_xml.Electric | emtf_xml.Magnetic
+            channel in the site layout
+        """
+        layout = self.site_layout
+        for channel in layout.input_channels + layout.output_channels:
+            if channel.name.lower() == comp.lower():
+                return channel
+
+        if comp.lower().startswith("e"):
+            channel = emtf_xml.Electric(name=comp)
+        else:
+            channel = emtf_xml.Magnetic(name=comp)
+        if comp.lower() in ["hx", "hy", "bx", "by"]:
+            layout.input_channels.append(channel)
+        else:
+            layout.output_channels.append(channel)
+        return channel
+
     def _parse_comments_electric(self, key: str, value: str) -> tuple[None, None]:
         """
         parse comments for electric channel information.
@@ -639,14 +668,7 @@ class EMTFXML:
                 value,
             )
         elif fkey in ["x", "x2", "y", "y2", "z", "z2"]:
-            if len(self.site_layout.output_channels) == 0:
-                self.site_layout.output_channels.append(emtf_xml.Electric(name=comp))
-            ch_names = [c.name for c in self.site_layout.output_channels]
-            if comp in ch_names:
-                index = ch_names.index(comp)
-            else:
-                index = 0
-            self.site_layout.output_channels[index].update_attribute(fkey, value)
+            self._get_layout_channel(comp).update_attribute(fkey, value)
         return None, None
 
     def _parse_comments_magnetic(self, key: str, value: str) -> tuple[None, None]:
@@ -676,11 +698,10 @@ class EMTFXML:
             comp = "hx"
             fkey = klist[0]
 
-        if fkey in ["chtype", "manufacturer", "azm", "type", "acqchan"]:
+        if fkey in ["chtype", "manufacturer", "type", "acqchan"]:
             m_dict = {
                 "chtype": "name",
                 "manufacturer": "manufacturer",
-                "azm": "azimuth",
                 "type": "type",
                 "acqchan": "id",
             }
@@ -707,28 +728,10 @@ class EMTFXML:
                 m_dict[fkey],
                 value,
             )
+        elif fkey == "azm":
+            self._get_layout_channel(comp).orientation = value
         elif fkey in ["x", "y", "z"]:
-            if comp in ["hx", "hy"]:
-                if len(self.site_layout.output_channels) == 0:
-                    self.site_layout.input_channels.append(emtf_xml.Magnetic(name=comp))
-                ch_names = [c.name for c in self.site_layout.output_channels]
-                if comp in ch_names:
-                    index = ch_names.index(comp)
-                else:
-                    index = 0
-                self.site_layout.output_channels[index].update_attribute(fkey, value)
-            elif comp in ["hz"]:
-                if len(self.site_layout.output_channels) == 0:
-                    self.site_layout.output_channels.append(
-                        emtf_xml.Magnetic(name=comp)
-                    )
-                ch_names = [c.name for c in self.site_layout.output_channels]
-                if comp in ch_names:
-                    index = ch_names.index(comp)
-                else:
-                    index = 0
-
-                self.site_layout.output_channels[index].update_attribute(fkey, value)
+            self._get_layout_channel(comp).update_attribute(fkey, value)
         return None, None
 
     def _parse_comments_processing(
-- 
2.43.0


From 3dceba057ab3386e07139a2058658cc8a992a587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 35/42] fix: StationXML channel types are not stored as an
 attribute named special

---
 mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 62f3e84..dce321a 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -122,7 +122,7 @@ class XMLChannelMTChannel(BaseTranslator):
         mt_filters = self._xml_response_to_mt(xml_channel, existing_filters)
 
         for xml_key, mt_key in self.xml_translator.items():
-            if mt_key:
+            if mt_key and mt_key != "special":
                 value = getattr(xml_channel, xml_key)
                 if value:
                     mt_channel.update_attribute(mt_key, value)
-- 
2.43.0


From 64294bb334a8980d7742e7c3c8d417921725518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 36/42] fix: converting or updating metadata does not share
 parts between objects

---
 mt_metadata/processing/aurora/decimation_level.py         | 2 +-
 mt_metadata/processing/fourier_coefficients/decimation.py | 4 ++--
 mt_metadata/timeseries/run.py                             | 2 +-
 mt_metadata/transfer_functions/core.py                    | 6 +++---
 mt_metadata/transfer_functions/io/edi/edi.py              | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mt_metadata/processing/aurora/decimation_level.py b/mt_metadata/processing/aurora/decimation_level.py
index b170355..ee408a7 100644
--- a/mt_metadata/processing/aurora/decimation_level.py
+++ b/mt_metadata/processing/aurora/decimation_level.py
@@ -578,7 +578,7 @@ class DecimationLevel(MetadataBase):
         fc_dec_obj.stft.prewhitening_type = self.stft.prewhitening_type
         fc_dec_obj.stft.recoloring = self.stft.recoloring
         fc_dec_obj.time_series_decimation.sample_rate = self.decimation.sample_rate
-        fc_dec_obj.stft.window = self.stft.window
+        fc_dec_obj.stft.window = self.stft.window.copy()
 
         return fc_dec_obj
 
diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 659621c..1eefa08 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -296,7 +296,7 @@ class Decimation(MetadataBase):
         ## and it initiates an empty channel, but we need to fill it with
         ## the appropriate metadata.
         for ch in other.channels:
-            self.add_channel(ch)
+            self.add_channel(ch.copy())
 
     def has_channel(self, component: str) -> bool:
         """
@@ -489,7 +489,7 @@ def fc_decimations_creator(
 
         if time_period:
             if isinstance(time_period, TimePeriod):
-                fc_dec.time_period = time_period
+                fc_dec.time_period = time_period.copy()
             else:
                 msg = (
                     f"Not sure how to assign time_period with type {type(time_period)}"
diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index ced7acf..b351c1e 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -572,7 +572,7 @@ class Run(MetadataBase):
         ## and it initiates an empty channel, but we need to fill it with
         ## the appropriate metadata.
         for ch in other.channels:
-            self.add_channel(ch)
+            self.add_channel(ch.copy())
 
     def has_channel(self, component: str) -> bool:
         """
diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 441d36d..16f0025 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2354,10 +2354,10 @@ class TF:
         zmm_kwargs["channel_nomenclature"] = self.channel_nomenclature
         zmm_kwargs["inverse_channel_nomenclature"] = self.inverse_channel_nomenclature
         if hasattr(self, "decimation_dict"):
-            zmm_kwargs["decimation_dict"] = self.decimation_dict
+            zmm_kwargs["decimation_dict"] = deepcopy(self.decimation_dict)
         zmm_obj = ZMM(**zmm_kwargs)
 
-        zmm_obj.dataset = self.dataset
+        zmm_obj.dataset = self.dataset.copy(deep=True)
         # work on a copy, a run may be added or replaced below
         station_metadata = self.station_metadata.copy()
         zmm_obj.station_metadata = station_metadata
@@ -2438,7 +2438,7 @@ class TF:
             )
         if not isinstance(zmm_obj, ZMM):
             raise TypeError(f"Input must be a ZMM object not {type(zmm_obj)}")
-        self.decimation_dict = zmm_obj.decimation_dict
+        self.decimation_dict = deepcopy(zmm_obj.decimation_dict)
         k_dict = OrderedDict(
             {
                 "survey_metadata": "survey_metadata",
diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index e7de0ba..8b60ea5 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1231,7 +1231,7 @@ class EDI:
         self.Header.acqdate = sm.time_period.start
         self.Header.coordinate_system = sm.orientation.reference_frame
         self.Header.dataid = sm.id
-        self.Header.declination = sm.location.declination
+        self.Header.declination = sm.location.declination.copy()
         self.Header.elevation = sm.location.elevation
         self.Header.fileby = sm.provenance.submitter.author
         self.Header.filedate = sm.provenance.creation_time
-- 
2.43.0


From 02ca491d1fb758ab98c39bebaec8e6b53a75a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:10 +0000
Subject: [PATCH 37/42] fix: runs matched from a StationXML channel do not
 share one channel object

---
 .../timeseries/stationxml/xml_inventory_mt_experiment.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index 5145616..6ce5f88 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -107,7 +107,7 @@ class XMLInventoryMTExperiment:
                                 ) and (
                                     mt_run.time_period.end <= mt_channel.time_period.end
                                 ):
-                                    mt_run.channels.append(mt_channel)
+                                    mt_run.channels.append(deepcopy(mt_channel))
                                     mt_run.sample_rate = mt_channel.sample_rate
                     # make a new run with generic information
                     else:
-- 
2.43.0


From 1a8dcea785d903522a3a1882698c91b68b202edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:31 +0000
Subject: [PATCH 38/42] fix: StationXML dipole takes maker and model from the
 negative electrode when only that one has them

---
 mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index dce321a..8301975 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -321,12 +321,12 @@ class XMLChannelMTChannel(BaseTranslator):
             s.description = f"{mt_channel.dipole_length} meters"
             if mt_channel.positive.manufacturer:
                 s.manufacturer = mt_channel.positive.manufacturer
-            elif mt_channel.positive.manufacturer:
+            elif mt_channel.negative.manufacturer:
                 s.manufacturer = mt_channel.negative.manufacturer
 
             if mt_channel.positive.model:
                 s.model = mt_channel.positive.model
-            elif mt_channel.positive.model:
+            elif mt_channel.negative.model:
                 s.model = mt_channel.negative.model
 
             s.serial_number = (
-- 
2.43.0


From 17c9b2e4b303dcf11b95c4e9be870cb3aac65163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:07 +0000
Subject: [PATCH 39/42] fix: errors and log messages show the values they
 announce

---
 mt_metadata/common/mttime.py                  |  2 +-
 .../fourier_coefficients/decimation.py        | 19 ++++++-------------
 .../timeseries/filters/obspy_stages.py        |  2 +-
 mt_metadata/timeseries/run.py                 |  2 +-
 .../io/emtfxml/metadata/data.py               |  2 +-
 .../transfer_functions/io/zonge/zonge.py      |  2 +-
 mt_metadata/utils/validators.py               | 18 +++++++++---------
 7 files changed, 20 insertions(+), 27 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 552d8de..a577d83 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -404,7 +404,7 @@ def parse(
 
     if gps_time:
         leap_seconds = calculate_leap_seconds(stamp.year, stamp.month, stamp.day)
-        logger.debug("Converting GPS time to UTC with %s leap seconds", leap_seconds)
+        logger.debug(f"Converting GPS time to UTC with {leap_seconds} leap seconds")
         stamp -= pd.Timedelta(seconds=leap_seconds)
 
     return _localize_utc(stamp)
diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 1eefa08..c9d04f7 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -268,22 +268,15 @@ class Decimation(MetadataBase):
 
         """
         if not isinstance(other, type(self)):
-            logger.warning("Cannot update %s with %s", type(self), type(other))
+            logger.warning(f"Cannot update {type(self)} with {type(other)}")
         for k in match:
             if self.get_attr_from_name(k) != other.get_attr_from_name(k):
-                msg = "%s is not equal %s != %s"
-                logger.error(
-                    msg,
-                    k,
-                    self.get_attr_from_name(k),
-                    other.get_attr_from_name(k),
-                )
-                raise ValueError(
-                    msg,
-                    k,
-                    self.get_attr_from_name(k),
-                    other.get_attr_from_name(k),
+                msg = (
+                    f"{k} is not equal {self.get_attr_from_name(k)} != "
+                    f"{other.get_attr_from_name(k)}"
                 )
+                logger.error(msg)
+                raise ValueError(msg)
         for k, v in other.to_dict(single=True).items():
             if hasattr(v, "size"):
                 if v.size > 0:
diff --git a/mt_metadata/timeseries/filters/obspy_stages.py b/mt_metadata/timeseries/filters/obspy_stages.py
index f383ad3..fea20c7 100644
--- a/mt_metadata/timeseries/filters/obspy_stages.py
+++ b/mt_metadata/timeseries/filters/obspy_stages.py
@@ -175,6 +175,6 @@ def create_filter_from_stage(stage):
         return obspy_filter
 
     else:
-        msg = "Filter Stage of type {type(stage)} not known, or supported"
+        msg = f"Filter Stage of type {type(stage)} not known, or supported"
         logger.info(msg)
         raise TypeError(msg)
diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index b351c1e..fc3e7f6 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -556,7 +556,7 @@ class Run(MetadataBase):
             if self.get_attr_from_name(k) != other.get_attr_from_name(k):
                 msg = (
                     f"{k} is not equal {self.get_attr_from_name(k)} != "
-                    "{other.get_attr_from_name(k)}"
+                    f"{other.get_attr_from_name(k)}"
                 )
                 logger.error(msg)
                 raise ValueError(msg)
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
index 23e2f95..f0420b7 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
@@ -318,7 +318,7 @@ class TransferFunction(MetadataBase):
             try:
                 value_list = block[key]["value"]
             except KeyError:
-                logger.debug("No value for %s at period index %s", comp, period_index)
+                logger.debug(f"No value for {comp} at period index {period_index}")
                 continue
 
             if not isinstance(value_list, list):
diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 66452ee..e7da374 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -294,7 +294,7 @@ class ZongeMTAvg:
 
         if "tzx" not in self.df.comp.to_list():
             logger.debug(
-                "No Tipper found in {self.fn.name}",
+                f"No Tipper found in {self.fn.name}",
             )
             return None, None
 
diff --git a/mt_metadata/utils/validators.py b/mt_metadata/utils/validators.py
index d464f22..8e6be69 100644
--- a/mt_metadata/utils/validators.py
+++ b/mt_metadata/utils/validators.py
@@ -118,7 +118,7 @@ def validate_header(header, attribute=False):
         validated header
     """
     if not isinstance(header, list):
-        msg = "input header must be a list, not {type(header)}"
+        msg = f"input header must be a list, not {type(header)}"
         raise MTValidatorError(msg)
 
     if attribute:
@@ -298,10 +298,10 @@ def validate_required(value):
         elif value.lower() in ["true"]:
             return True
         else:
-            msg = "Required value must be True or False, not {value}"
+            msg = f"Required value must be True or False, not {value}"
             raise MTValidatorError(msg)
     else:
-        msg = "Required value must be True or False, not {type(value)}"
+        msg = f"Required value must be True or False, not {type(value)}"
         raise MTValidatorError(msg)
 
 
@@ -470,7 +470,7 @@ def validate_options(options):
         options = ["{0}".format(options)]
 
     else:
-        msg = "Option type not understood {type(options)}"
+        msg = f"Option type not understood {type(options)}"
         raise MTValidatorError(msg)
     return options
 
@@ -659,19 +659,19 @@ def validate_value_type(value, v_type, style=None):
                         return None
                     return int(value)
                 except ValueError:
-                    raise MTSchemaError(msg, value, v_type, type(value))
+                    raise MTSchemaError(msg % (value, v_type, type(value)))
             elif v_type is float:
                 try:
                     return float(value)
                 except ValueError:
-                    raise MTSchemaError(msg, value, v_type, type(value))
+                    raise MTSchemaError(msg % (value, v_type, type(value)))
             elif v_type is bool:
                 if value.lower() in ["false", "0"]:
                     return False
                 elif value.lower() in ["true", "1"]:
                     return True
                 else:
-                    raise MTSchemaError(msg, value, v_type, type(value))
+                    raise MTSchemaError(msg % (value, v_type, type(value)))
             elif v_type is str:
                 return value
 
@@ -715,7 +715,7 @@ def validate_value_type(value, v_type, style=None):
             return bool(value)
 
         else:
-            raise MTSchemaError(msg, value, v_type, type(value))
+            raise MTSchemaError(msg % (value, v_type, type(value)))
     else:
         return value
 
@@ -750,7 +750,7 @@ def validate_value_dict(value_dict):
                 value_dict[key]
             )
         except KeyError:
-            raise KeyError("Could not find {key} for validator {__name__}")
+            raise KeyError(f"Could not find {key} for validator {__name__}")
 
     # need to validate the default value after all other keys have been validated
     value_dict["default"] = validate_default(value_dict)
-- 
2.43.0


From 8e50106ee8469bf7ab3206b4a88bcda37d3aca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:07 +0000
Subject: [PATCH 40/42] fix: reading a JSON schema that does not exist raises
 the schema error

---
 mt_metadata/base/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/base/schema.py b/mt_metadata/base/schema.py
index ffc5120..9d6e2a9 100644
--- a/mt_metadata/base/schema.py
+++ b/mt_metadata/base/schema.py
@@ -384,7 +384,7 @@ class BaseDict(MutableMapping):
         if not json_fn.exists():
             msg = f"JSON schema file {json_fn} does not exist"
             logger.error(msg)
-            MTSchemaError(msg)
+            raise MTSchemaError(msg)
 
         with open(json_fn, "r", encoding="utf-8") as fid:
             json_dict = json.load(fid)
-- 
2.43.0


From 9d846a535cce7f4b325ca946f1e5aa40d2f34ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:39 +0000
Subject: [PATCH 41/42] fix: the tipper error of an AVG file is worked out from
 its error columns, not its magnitude

---
 mt_metadata/transfer_functions/io/zonge/zonge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index e7da374..bc28580 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -324,7 +324,7 @@ class ZongeMTAvg:
                 ),
                 row.z_phase_err,
             )
-            t_err[f_index, ii, jj] = np.sqrt(t_real**2 + t_imag**2)
+            t_err[f_index, ii, jj] = np.sqrt(t_real_error**2 + t_imag_error**2)
 
         return t, t_err
 
-- 
2.43.0


From 2b42adef3f9055a9995865c426f460c74c272ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:17 +0000
Subject: [PATCH 42/42] fix: comparing treats a coordinate of None on either
 side like zero

---
 mt_metadata/base/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index f2d2953..7d65c3d 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -460,7 +460,9 @@ class MetadataBase(DotNotationBaseModel):
                         msg = f"{key}: {value} != {other_value}"
                         logger.info(msg)
                         equals = False
-                elif isinstance(value, (float, int, complex)):
+                elif isinstance(value, (float, int, complex)) or (
+                    value is None and isinstance(other_value, (float, int, complex))
+                ):
                     # Handle None values in numeric comparisons
                     if other_value is None or value is None:
                         # Special case for coordinate fields: treat None and 0.0 as equal
-- 
2.43.0

