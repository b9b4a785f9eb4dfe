"""
Write mc/spec_defs.json: the published sentence layouts, frozen at the pinned commit.
Run once by hand; checks only read the frozen file.
"""
import json
import os
import sys

sys.path.insert(0, "/repo/src")
import pynmeagps.nmeatypes_core as c
import pynmeagps.nmeatypes_get as g
import pynmeagps.nmeatypes_get_prop as gp
import pynmeagps.nmeatypes_poll as p
import pynmeagps.nmeatypes_poll_prop as pp
import pynmeagps.nmeatypes_set as s
import pynmeagps.nmeatypes_set_prop as sp


def conv(d):
    return [
        [k, [v[0], conv(v[1])]] if isinstance(v, tuple) else [k, v] for k, v in d.items()
    ]


out = {
    "GET": {k: conv(v) for k, v in g.NMEA_PAYLOADS_GET.items() if k != "FOO"},
    "GET_PROP": {k: conv(v) for k, v in gp.NMEA_PAYLOADS_GET_PROP.items()},
    "SET": {k: conv(v) for k, v in s.NMEA_PAYLOADS_SET.items()},
    "SET_PROP": {k: conv(v) for k, v in sp.NMEA_PAYLOADS_SET_PROP.items()},
    "POLL": {k: conv(v) for k, v in p.NMEA_PAYLOADS_POLL.items()},
    "POLL_PROP": {k: conv(v) for k, v in pp.NMEA_PAYLOADS_POLL_PROP.items()},
    "MSGIDS": dict(c.NMEA_MSGIDS),
    "MSGIDS_PROP": dict(c.NMEA_MSGIDS_PROP),
    "PREFIX_PROP": list(c.NMEA_PREFIX_PROP),
    "TALKERS": list(c.NMEA_TALKERS),
}
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "spec_defs.json")
with open(path, "w", encoding="utf-8") as f:
    json.dump(out, f, indent=0, ensure_ascii=False)
