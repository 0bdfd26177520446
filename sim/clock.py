"""The clock and the time zone of a run.

The real-time clock is replaced below libc's callers (sim/simclock.c, loaded by
LD_PRELOAD into the processes that execute runs), so that every way of asking
for the time in Python, and in C, gets the simulated one.
"""
import ctypes
import os
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.join(os.path.dirname(HERE), '.build', 'simclock.so')


def build():
    """Compile the library if it is not there. Its path is the same everywhere."""
    src = os.path.join(HERE, 'simclock.c')
    try:
        if os.path.getmtime(LIB) >= os.path.getmtime(src):
            return LIB
    except OSError:
        pass
    os.makedirs(os.path.dirname(LIB), exist_ok=True)
    tmp = f'{LIB}.{os.getpid()}'
    cc = next(c for c in ('gcc', 'cc', 'clang') if shutil.which(c))
    subprocess.run([cc, '-O1', '-shared', '-fPIC', '-o', tmp, src], check=True)
    os.replace(tmp, LIB)
    return LIB


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.simclock_value.restype = ctypes.c_longlong
        _lib.simclock_reads.restype = ctypes.c_longlong
        _lib.simclock_value.argtypes = [ctypes.c_longlong]
    return _lib


def set_clock(values, tick=1000):
    """The readings of the clock from now on, in nanoseconds since 1970."""
    arr = (ctypes.c_longlong * len(values))(*values)
    lib().simclock_set(arr, ctypes.c_int(len(values)), ctypes.c_longlong(tick))


def off():
    lib().simclock_set(None, ctypes.c_int(0), ctypes.c_longlong(0))


def readings():
    """Every value read since the clock was set."""
    return [lib().simclock_value(i) for i in range(lib().simclock_reads())]


def set_zone(tz):
    if tz is None:
        os.environ.pop('TZ', None)
    else:
        os.environ['TZ'] = tz
    time.tzset()


ZONES = ['UTC', 'Europe/Stockholm', 'America/New_York', 'Asia/Kolkata', 'Pacific/Kiritimati',
         'Pacific/Chatham', 'America/St_Johns', 'XXX-14', 'YYY+12', 'EST5EDT,M3.2.0,M11.1.0',
         'ZZZ-5:45', 'Australia/Lord_Howe']
