CH="timeseries/channel.py"; MD="base/metadata.py"; HE="base/helpers.py"; VA="utils/validators.py"; TO="transfer_functions/io/tools.py"
MM="timeseries/tools/from_many_mt_files.py"; EX="timeseries/experiment.py"; RUN="timeseries/run.py"; EDI="transfer_functions/io/edi/edi.py"
EM="transfer_functions/io/emtfxml/emtfxml.py"; ZM="transfer_functions/io/zfiles/zmm.py"; ZO="transfer_functions/io/zonge/zonge.py"; JF="transfer_functions/io/jfiles/jfile.py"
MT="common/mttime.py"; LI="common/list_dict.py"; CO="transfer_functions/core.py"; SC="base/schema.py"
BUGS=[
("c01a","C01",[(CH,"parsed_data = ast.literal_eval(value)","parsed_data = __import__('numpy').safe_eval(value) if False else __builtins__['eval'](value)")]),
("c01b","C01",[(HE,"import json\n","import json\nimport pickle\n"),(HE,"def validate_name(","def _load_blob(x):\n    return pickle.loads(bytes(x))\n\n\ndef validate_name(")]),
("c01c","C01",[(CO,"from copy import deepcopy\n","from copy import deepcopy\nimport numpy.core as _npc\n"),(CO,"    def to_edi(","    def _load(self, fn):\n        return np.load(fn, allow_pickle=True)\n\n    def to_edi(")]),
("c01d","C01",[(MD,"    def from_json(","    def _q(self, df, expr):\n        return df.query(expr)\n\n    def from_json(")]),
("c01e","C01",[(MD,"from operator import itemgetter\n","from operator import itemgetter\nimport importlib\n"),(MD,"    def from_json(","    def _q(self, name):\n        mod, cls = name.rsplit('.', 1)\n        return getattr(importlib.import_module(mod), cls)\n\n    def from_json(")]),
("c01f","C01",[(TO,"info = json.loads(response.read())","import yaml\n            info = yaml.load(response.read(), Loader=yaml.Loader)")]),
("c01g","C01",[(VA,"import sys\n","import sys\nimport subprocess\n"),(VA,"def validate_attribute(","def _run(x):\n    return subprocess.check_output(f'echo {x}', shell=True)\n\n\ndef validate_attribute(")]),
("c01h","C01",[(EX,"from_pickle","from_pickle_")] if False else [(EX,"    def from_json(","    def _fp(self, fn):\n        import pandas as pd\n        return pd.read_pickle(fn)\n\n    def from_json(")]),
("c01i","C01",[(CH,"parsed_data = ast.literal_eval(value)","code = compile(value, '<f>', 'eval')\n                        parsed_data = __import__('types').FunctionType(code, {})()")]),
("c01j","C01",[(CH,"parsed_data = ast.literal_eval(value)","parsed_data = (lambda f: f(value))(eval)")]),
("c02a","C02",[(CO,"    def to_edi(","    def _elev(self):\n        import socket\n        return socket.create_connection(('h', 1))\n\n    @property\n    def zelev(self):\n        return self._elev()\n\n    def to_edi(")]),
("c02b","C02",[(EM,"    def read(","    def _x(self):\n        from urllib.request import urlopen\n        return urlopen(self.external_url.url)\n\n    def read(")]),
("c02c","C02",[("common/geographic_location.py","from .","from .")] if False else [("common/basic_location.py","import","import")]) if False else ("c02c","C02",[(MD,"import pandas as pd\n","import pandas as pd\nimport requests\n"),(MD,"    def from_json(","    def _q(self, u):\n        return requests.get(u).json()\n\n    def from_json(")]),
("c02d","C02",[(EDI,"import numpy as np\n","import numpy as np\nimport pandas as pd\n"),(EDI,"    def write(","    def _decl(self):\n        return pd.read_csv('https://x.org/a.csv')\n\n    def write(")]),
("c03a","C03",[(MT,"import numpy as np\n","import numpy as np\nfrom obspy import UTCDateTime\n")]),
("c03b","C03",[(HE,"import numpy as np\n","import numpy as np\nfrom mt_metadata.timeseries.stationxml import fdsn_tools as _ft\n")]),
("c03c","C03",[(MD,"import pandas as pd\n","import pandas as pd\nimport lxml.etree as _lx\n")]),
("c03d","C03",[(RUN,"import numpy as np\n","import numpy as np\nfrom mt_metadata.timeseries.filters.obspy_stages import create_filter_from_stage\n")]),
("c04a","C04",[(MM,"return sorted(self.xml_path.rglob(\"*.xml\"))","return list(self.xml_path.rglob(\"*.xml\"))")]),
("c04b","C04",[(MM,"return sorted(self.xml_path.rglob(\"*.xml\"))","return sorted(self.xml_path.rglob(\"*.xml\"), key=lambda x: x.stat().st_mtime)")]),
("c04c","C04",[(RUN,"    def update(","    @property\n    def comps(self):\n        return [c for c in {ch.component for ch in self.channels}]\n\n    def update(")]),
("c04d","C04",[(LI,"    def keys(","    def ukeys(self):\n        return list(set(self._home.keys()))\n\n    def keys(")]),
("c04e","C04",[(CO,"    def to_edi(","    def _uid(self):\n        return f'{self.tf_id}_{hash(self.station)}'\n\n    def to_edi(")]),
("c04f","C04",[(CO,"    def to_edi(","    def _uid(self):\n        d = frozenset(self.channel_nomenclature.values())\n        out = ''\n        for k in d:\n            out += k\n        return out\n\n    def to_edi(")]),
("c05a","C05",[(JF,'"r", encoding="utf-8", errors="replace"','"r", errors="replace"')]),
("c05b","C05",[(ZO,'self.fn.open("r", encoding="utf-8")','self.fn.open("r", encoding=None)')]),
("c05c","C05",[(SC,'open(json_fn, "w", encoding="utf-8")','open(json_fn, "w", encoding=__import__("locale").getpreferredencoding())')]),
("c05d","C05",[(EX,'with open(fn, "w", encoding="utf-8") as fid:','with Path(fn).open("w") as fid:')]),
("c05e","C05",[(EM,'with open(fn, "w", encoding="utf-8") as fid:','import io\n        with io.TextIOWrapper(open(fn, "wb")) as fid:')]),
("c05f","C05",[(EDI,'with open(new_edi_fn, "w", encoding="utf-8") as fid:','opts = {"mode": "w"}\n        with open(new_edi_fn, **opts) as fid:')]),
("c05g","C05",[(TO,"info = json.loads(response.read())","import sys\n            info = json.loads(response.read().decode(sys.getfilesystemencoding()))")]),
("c06a","C06",[(MT,"    def __repr__","    def _loc(self):\n        return self.time_stamp.tz_convert('dateutil/')\n\n    def __repr__")] ),
("c06b","C06",[(MT,"    def __repr__","    def _loc(self):\n        import datetime\n        return datetime.datetime.fromtimestamp(self.epoch_seconds)\n\n    def __repr__")] ),
("c06c","C06",[(MT,"    def __repr__","    def _loc(self):\n        return self.time_stamp.strftime('%d %b %Y')\n\n    def __repr__")] ),
("c06d","C06",[(EDI,"    def write(","    def _now(self):\n        import datetime\n        return datetime.datetime.now().isoformat()\n\n    def write(")] ),
("c06e","C06",[(EDI,"    def write(","    def _now(self):\n        import time\n        return time.strftime('%Y-%m-%d')\n\n    def write(")] ),
("c06f","C06",[(MT,"    def __repr__","    def _loc(self):\n        return self.time_stamp.to_pydatetime().replace(tzinfo=None).timestamp()\n\n    def __repr__")] ),
("c06g","C06",[(MT,"    def __repr__","    def _loc(self):\n        return self.time_stamp.to_pydatetime().astimezone().isoformat()\n\n    def __repr__")] ),
("c07a","C07",[(CO,"    def to_edi(","    def _x(self):\n        xr.set_options(keep_attrs=True)\n\n    def to_edi(")]),
("c07b","C07",[(RUN,"    def update(","    def _x(self):\n        import os\n        os.environ['TZ'] = 'UTC'\n\n    def update(")]),
("c07c","C07",[(RUN,"    def update(","    def _x(self):\n        np.random.seed(0)\n        logger.remove()\n\n    def update(")]),
("c07d","C07",[("timeseries/filters/plotting_helpers.py","import matplotlib.pyplot as plt\n","import matplotlib.pyplot as plt\nplt.rcParams['font.size'] = 8\n")]),
("c07e","C07",[(MD,"    def from_json(","    def _q(self):\n        pd.options.display.precision = 3\n        et.register_namespace('a', 'b')\n\n    def from_json(")]),
("c07f","C07",[(MM,"    def make_df(self):","    def cd(self):\n        import os\n        os.chdir(self.xml_path)\n\n    def make_df(self):")]),
("c08a","C08",[(TO,"    except Exception:\n","    except BaseException:\n")]),
("c08b","C08",[(TO,"    except Exception:\n","    except (Exception, KeyboardInterrupt):\n")]),
("c08c","C08",[(RUN,"    def update(","    def _x(self):\n        try:\n            return self.id\n        finally:\n            return None\n\n    def update(")]),
("c08d","C08",[(RUN,"    def update(","    def _x(self):\n        import sys\n        sys.exit(1)\n\n    def update(")]),
("c08e","C08",[(RUN,"    def update(","    def _x(self):\n        import contextlib\n        with contextlib.suppress(BaseException):\n            return self.id\n\n    def update(")]),
("c08f","C08",[(RUN,"    def update(","    def _x(self):\n        return input('overwrite?')\n\n    def update(")]),
("c08g","C08",[(RUN,"    def update(","    def _x(self):\n        for k in [1]:\n            try:\n                self.id\n            finally:\n                continue\n\n    def update(")]),
("c08h","C08",[(RUN,"    def update(","    def _x(self):\n        raise SystemExit('bad')\n\n    def update(")]),
("c09a","C09",[(RUN,"    def update(","    def _x(self, x):\n        if __debug__:\n            x = float(x)\n        return x\n\n    def update(")]),
("c09b","C09",[(RUN,"    def update(","    def _x(self, x):\n        return self.__doc__.split()\n\n    def update(")]),
("c09c","C09",[(RUN,"    def update(","    def _x(self, x):\n        import sys\n        if sys.flags.optimize:\n            return\n        raise ValueError(x)\n\n    def update(")]),
("c09d","C09",[(RUN,"    def update(","    def _x(self, x):\n        import numpy.testing as nt\n        nt.assert_allclose(x, 1)\n        assert x\n\n    def update(")]),
("c10a","C10",[(SC,'        with open(json_fn, "r", encoding="utf-8") as fid:','        fid = open(json_fn, "r", encoding="utf-8")\n        if True:')]),
("c10b","C10",[(ZM,'        with open(self.fn, "w", encoding="utf-8") as fid:','        fid = open(self.fn, "w", encoding="utf-8")\n        if fid:')]),
("c10c","C10",[(TO,"        with closing(response):\n            info","        if True:\n            info")]),
("c10d","C10",[(RUN,"    def update(","    def _x(self, fn):\n        import zipfile\n        z = zipfile.ZipFile(fn)\n        return z.namelist()\n\n    def update(")]),
("c10e","C10",[(RUN,"    def update(","    def _x(self, fn):\n        from pathlib import Path\n        return json.load(Path(fn).open(encoding='utf-8'))\n\n    def update(")]),
("c10f","C10",[(RUN,"    def update(","    def _x(self, fn):\n        f = open(fn, encoding='utf-8')\n        d = f.read().split('=')[1]\n        f.close()\n        return d\n\n    def update(")]),
]
