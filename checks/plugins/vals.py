"""Plugin used by the checks: values of every type, read as JSON from the file itself."""

import os
import json
import time

from libff.plugin import *


class Vals(Plugin):
    """Values of every type from the JSON object in the file; keys that are missing have no value."""

    speed = Speed.NORMAL

    attributes = [
        ("vs", String, "a string"),
        ("vp", Path, "a path"),
        ("vn", Number, "a number"),
        ("vz", Size, "a size"),
        ("vt", Time, "a time"),
        ("vd", Duration, "a duration"),
        ("vb", Boolean, "a boolean"),
        ("vm", Mode, "a mode"),
        ("vl", ListOfStrings, "a list"),
        ("vu", ListOfStrings, "a list that is a set"),
        ("vf", FileType, "a file type"),
    ]

    def can_handle(self, entry):
        return entry.is_file() and entry.name.startswith("v")

    def process(self, entry, cached):
        with open(entry.path, encoding="utf-8") as fobj:
            text = fobj.read()
        if not text:
            raise NoData
        for key, value in json.loads(text).items():
            yield key, set(value) if key == "vu" else value


class Slowvals(Vals):
    """The same, but it claims to be slow."""

    speed = Speed.SLOW


class Lazy(Plugin):
    """Takes its time."""

    speed = Speed.SLOW

    attributes = [("num", Number, "a number")]

    def can_handle(self, entry):
        return True

    def process(self, entry, cached):
        time.sleep(0.03)
        yield "num", 1


class Boom(Plugin):
    """Fails for files whose name contains "boom"."""

    speed = Speed.NORMAL

    attributes = [("num", Number, "a number")]

    def can_handle(self, entry):
        return True

    def process(self, entry, cached):
        if "boom" in entry.name:
            raise RuntimeError("boom")
        yield "num", 1
