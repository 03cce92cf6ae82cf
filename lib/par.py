"""A function over a list of items in forked processes: no threads, no locks, and an end that cannot hang.

(multiprocessing.Pool may deadlock when it is terminated, and waits forever for a worker that died.)
"""
import os, sys, pickle, select, signal, struct, traceback

import vos

_read, _write, _close, _select = os.read, os.write, os.close, select.select


class Died:
    """the worker of an item ended without an answer"""

    def __init__(self, status):
        self.status = status


def _send(fd, kind, index, data=b""):
    buf = struct.pack("<cIQ", kind, index, len(data)) + data
    while buf:
        buf = buf[_write(fd, buf):]


def _work(fn, items, tasks, out):
    while True:
        b = _read(tasks, 4)
        if len(b) < 4:
            return
        i = struct.unpack("<I", b)[0]
        _send(out, b"S", i)
        _send(out, b"R", i, pickle.dumps(fn(items[i])))


HEAD = struct.calcsize("<cIQ")


def over(fn, items, procs):
    """yields (index, result) in the order of completion"""
    items = list(items)
    if not items:
        return
    tasks = os.memfd_create("tasks")
    for k in range(0, len(items), 4096):
        _write(tasks, struct.pack("<%dI" % len(items[k:k + 4096]), *range(k, k + len(items[k:k + 4096]))))
    # processes that share an open file share its position: each record is read by one of them
    os.lseek(tasks, 0, os.SEEK_SET)
    live = {}                 # read end -> [pid, buffer, item being worked on, exit status]
    me = os.getpid()

    def start():
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = vos.real.fork()
        if pid == 0:
            code = 1
            try:
                for fd in live:
                    _close(fd)
                _close(r)
                sys.stdin.close()
                sys.stdin = open(os.devnull)
                _work(fn, items, tasks, w)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                vos.real._exit(code)
        _close(w)
        live[r] = [pid, bytearray(), None, None]
    left = len(items)
    try:
        for _ in range(min(procs, len(items))):
            start()
        while live:
            ready = _select(list(live), [], [], 1.0)[0]
            gone = []
            for fd, v in live.items():
                if fd not in ready:
                    # its end of the pipe may be held open by what it left behind
                    if v[3] is None:
                        pid, st = vos.real.waitpid(v[0], os.WNOHANG)
                        v[3] = st if pid else None
                    if v[3] is not None and not _select([fd], [], [], 0)[0]:
                        gone.append((fd, v[3]))
            for fd in ready:
                b = _read(fd, 1 << 20)
                if not b:
                    v = live[fd]
                    gone.append((fd, vos.real.waitpid(v[0], 0)[1] if v[3] is None else v[3]))
                    continue
                buf = live[fd][1]
                buf += b
                while len(buf) >= HEAD:
                    kind, i, n = struct.unpack_from("<cIQ", buf)
                    if len(buf) < HEAD + n:
                        break
                    data = bytes(buf[HEAD:HEAD + n])
                    del buf[:HEAD + n]
                    if kind == b"S":
                        live[fd][2] = i
                    else:
                        live[fd][2] = None
                        left -= 1
                        yield i, pickle.loads(data)
            for fd, st in gone:
                pid, _, i, _ = live.pop(fd)
                _close(fd)
                if i is not None:
                    left -= 1
                    yield i, Died(st)
                    if left:
                        start()
    finally:
        if os.getpid() == me:
            for fd, (pid, _, _, st) in live.items():
                try:
                    if st is None:
                        vos.real.kill(pid, signal.SIGKILL)
                        vos.real.waitpid(pid, 0)
                except OSError:
                    pass
                _close(fd)
            _close(tasks)
