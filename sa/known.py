"""Committed list of known findings (read only)."""
import json, os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")


def load():
    with open(PATH) as f:
        return json.load(f)


def quirks():
    return tuple(e["quirk"] for e in load()["known"] if "quirk" in e)


def for_prop(p):
    return [e for e in load()["known"] if p in e["properties"]]
