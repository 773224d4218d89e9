"""Plugins that use the cache and note each call of cache() in the file named by CHECK_CALLS."""

import json
import os

from libff.plugin import *


def note(plugin, entry):
    name = os.environ.get("CHECK_CALLS")
    if name:
        with open(name, "a") as fobj:
            fobj.write(f"{plugin.name} {entry.name}\n")


class Ca(Plugin):
    """Text of the file; a file that begins with "!" has no data."""

    speed = Speed.NORMAL
    use_cache = True

    attributes = [("text", String, "the content"), ("count", Number, "the length"), ("some", ListOfStrings, "the letters")]

    def can_handle(self, entry):
        return entry.is_file()

    def cache(self, entry):
        note(self, entry)
        try:
            with open(entry.path, encoding="latin-1") as fobj:
                text = fobj.read()
        except OSError as exc:
            raise NoData from exc
        if text.startswith("!"):
            raise NoData
        if text.startswith("0"):
            return None
        return {"text": text, "some": set(text)}

    def process(self, entry, cached):
        if cached is None:
            yield "count", 0
            return
        if cached["text"].startswith("?"):
            raise NoData
        yield "text", cached["text"]
        yield "count", len(cached["text"])
        yield "some", sorted(cached["some"])


class Ca_b(Plugin):
    """A second one with a similar name and slow."""

    speed = Speed.SLOW
    use_cache = True

    attributes = [("back", String, "the content from the back")]

    def can_handle(self, entry):
        return True

    def cache(self, entry):
        note(self, entry)
        if not entry.is_file():
            return "<" + entry.type + ">"
        with open(entry.path, encoding="latin-1") as fobj:
            return fobj.read()[::-1]

    def process(self, entry, cached):
        return {"back": cached}
