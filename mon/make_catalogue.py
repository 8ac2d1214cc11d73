"""Pins the published catalogue (run once, by hand): mon/catalogue.json.gz"""
import gzip
import json
import os
import sys

sys.path.insert(0, "/repo")
from aeromet_py.database import get_country, get_stations     # noqa: E402

rows = [list(s) for s in get_stations()]
d = dict(stations=rows, countries={s[7]: get_country(s[7]) for s in rows})
with gzip.GzipFile(os.path.join(os.path.dirname(os.path.abspath(__file__)), "catalogue.json.gz"),
                   "wb", mtime=0) as f:
    f.write(json.dumps(d, ensure_ascii=False, sort_keys=True).encode())
