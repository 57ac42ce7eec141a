"""A model of the documented date formats, independent of the profiler's own parser state."""
import datetime
import re

FORMATS = ["%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%dT%H:%M:%S.%fZ", "%Y-%m-%dt%H:%M:%S.%fz",
           "%m/%d/%y %H:%M", "%m/%d/%Y %H:%M", "%Y%m%dT%H%M%S", "%Y-%m-%d", "%m/%d/%Y", "%m/%d/%y", "%b %d, %Y",
           "%B %d, %Y", "%d%b%y", "%b-%d-%y", "%m%d%Y", "%H:%M:%S.%f"]
SUFFIX = re.compile(r"(\d{1,2})(st|nd|rd|th)")


def parses(text):
    """[(format, instant)] for every documented format the text is written in"""
    t = SUFFIX.sub(r"\1", text)
    out = []
    for f in FORMATS:
        try:
            out.append((f, datetime.datetime.strptime(t, f)))
        except ValueError:
            pass
    return out
