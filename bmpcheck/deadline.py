"""Time limit per obligation: a monitor thread interrupts the evaluating thread, which
reports the obligation as undecided."""
import ctypes
import threading
import time


class Timeout(BaseException):
    pass


LOCK = threading.Lock()
CUR = {}          # thread id -> deadline
_MON = []


def _monitor():
    while True:
        time.sleep(0.5)
        now = time.process_time()
        with LOCK:
            for tid, d in list(CUR.items()):
                if now > d:
                    del CUR[tid]
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(tid), ctypes.py_object(Timeout))


def limited(seconds, f):
    """f() within the limit, or Timeout"""
    if not _MON:
        t = threading.Thread(target=_monitor, daemon=True)
        _MON.append(t)
        t.start()
    tid = threading.get_ident()
    with LOCK:
        CUR[tid] = time.process_time() + seconds
    try:
        return f()
    finally:
        with LOCK:
            CUR.pop(tid, None)
        for _ in range(20):      # a pending interrupt arrives here, not later
            pass
