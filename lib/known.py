"""known_findings.json: genuine defects that are recorded rather than repaired, and those repaired."""
import json, os
import common as C


def load():
    return json.load(open(os.path.join(C.VERIF, "known_findings.json")))


def findings(pid):
    return [k for k in load()["known"] if k["property"] == pid]
