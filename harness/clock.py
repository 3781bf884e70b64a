"""Time as the code under test sees it: within executions it passes in leaps.

Loaded before the code under test, so that whatever it reads of the clock goes
through here.  The time told never goes back; `begin` says how fast it passes in
the execution that starts, by its profile, so that it passes alike when the
script is run again.
"""

import concurrent.futures  # noqa: F401  (they keep the real clock)
import datetime
import queue  # noqa: F401
import selectors  # noqa: F401
import subprocess  # noqa: F401
import threading  # noqa: F401
import time
import zlib

real_time, real_monotonic = time.time, time.monotonic
ahead = 0  # seconds, whole
pace, count = 0, 0
LEAPS = {
    0: [0],
    1: [0, 1, 0, 0, 5, 31, 0, 61, 2, 0, 11],
    2: [0, 0, 301, 0, 3601, 0, 0, 7, 86401, 0, 1801, 61, 0],
}


def begin(profile):
    global pace, count
    pace, count = zlib.crc32(repr(profile).encode()) % 4 % 3, 0


def tick():
    global ahead, count
    leaps = LEAPS[pace]
    ahead += leaps[count % len(leaps)]
    count += 1


def _later(name, unit):
    f = getattr(time, name)
    g = lambda: f() + ahead * unit  # noqa: E731
    g.__name__ = name
    setattr(time, name, g)


for _n in ("time", "monotonic", "perf_counter"):
    _later(_n, 1)
    _later(_n + "_ns", 10**9)

_real = datetime.datetime


class _Kind(type(_real)):
    def __instancecheck__(cls, x):
        return isinstance(x, _real)


class _datetime(_real, metaclass=_Kind):
    @classmethod
    def now(cls, tz=None):
        return _real.now(tz) + datetime.timedelta(seconds=ahead)

    @classmethod
    def utcnow(cls):
        return _real.now(datetime.timezone.utc).replace(tzinfo=None) + datetime.timedelta(seconds=ahead)

    @classmethod
    def today(cls):
        return cls.now()


_datetime.__name__ = _datetime.__qualname__ = "datetime"
datetime.datetime = _datetime
