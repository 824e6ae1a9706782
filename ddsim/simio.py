"""Simulated disk, network and clock for the dataset loaders.

Everything under SIM_HOME lives in an in-memory file system with separate
volatile and durable state.  HTTP runs the real urllib/http.client stack over a
simulated socket.  Each file-system or socket call is a scheduler yield point
and a place where a fault or a crash can strike.
"""
import builtins
import collections
import errno
import http.client
import io
import os
import stat as statmod
import time

from .core import SimCrash

SIM_HOME = "/nonexistent-ddsim/home"
FD0 = 1_000_000

_real = {n: getattr(os, n) for n in (
    "open", "close", "write", "read", "fsync", "stat", "lstat", "fstat", "mkdir", "rmdir", "unlink",
    "remove", "rename", "replace", "listdir", "scandir", "access", "chmod", "utime", "truncate",
    "ftruncate", "lseek", "link", "readlink") if hasattr(os, n)}
_real["fdatasync"] = getattr(os, "fdatasync", None)
_real_open = io.open


class Inode:
    def __init__(self, data=b""):
        self.data = bytearray(data)
        self.durable = b""       # content guaranteed after power loss
        self.open = 0


class World:
    """The machine room: one disk, one server, one clock, several processes."""

    def __init__(self, sched, outcome, faults, crashes):
        self.sched = sched
        self.out = outcome
        self.now = 0.0
        self.ns = {}                      # path -> Inode | "DIR"   (volatile)
        self.durable_ns = {}              # what survives power loss
        self.pending = []                 # metadata ops since last commit
        self.fds = {}
        self.next_fd = FD0
        self.counts = collections.Counter()
        self.fault_plan = {}
        for cls, k, kind in faults:
            self.fault_plan.setdefault((cls, int(k)), kind)
        # crash: [cls, k, kind, keep_num]; strikes *around* the k-th op of cls
        self.crash_plan = {}
        for cls, k, kind, keep in crashes:
            self.crash_plan.setdefault((cls, int(k)), (kind, keep))
        self.procs = {}                   # task tid -> Proc
        self.versions = {}                # url -> version
        self.render = None                # (url, version) -> bytes
        self.net_up = True
        self.locale = "utf-8"
        self.url_state = {}
        self.frozen = True                # faults armed only while not frozen
        self.server_log = []              # (seq, url, version, tid)
        self.mkdirs(SIM_HOME)
        self.commit()

    # ---- processes -----------------------------------------------------
    def proc(self):
        t = self.sched.me()
        return self.procs.get(t.tid) if t else None

    def alive(self):
        p = self.proc()
        if p is not None and p.dead:
            raise SimCrash("process is dead")

    def op(self, cls, detail=""):
        """Yield point + fault lookup.  Returns a fault kind or None."""
        self.alive()
        self.sched.yield_point(cls)
        self.alive()
        if self.frozen:
            return None
        self.counts[cls] += 1
        k = self.counts[cls]
        t = self.sched.me()
        self.out.steps += 1
        if detail and ".csv" not in detail and cls not in ("conn", "mkdir", "list"):
            detail = "tmp" + detail.partition("+")[2]      # temporary names are random
        self.out.log("io", t.tid if t else -1, cls, detail)
        c = self.crash_plan.get((cls, k))
        if c is not None:
            return ("crash",) + tuple(c)
        f = self.fault_plan.get((cls, k))
        return f

    def fired(self, kind):
        self.out.faults[kind] += 1
        self.out.nontrivial = True
        p = self.proc()
        if p is not None:
            p.op_faults.append(kind)
        self.out.log("fault", kind)

    def crash(self, kind, keep):
        """kill: this process dies; power: every process dies, unsynced state is lost."""
        self.fired("crash_" + kind)
        if kind == "power":
            for p in self.procs.values():
                if p.running:
                    p.dead = True
            npend = len(self.pending)
            cut = keep % (npend + 1)
            ns = dict(self.durable_ns)
            for m in self.pending[:cut]:
                self._apply_meta(ns, m)
            self.ns = ns
            h = keep
            for ino in {id(i): i for i in ns.values() if isinstance(i, Inode)}.values():
                if bytes(ino.data) != ino.durable:
                    h = (h * 1103515245 + 12345) & 0x7FFFFFFF
                    new = bytes(ino.data)
                    if new.startswith(ino.durable):
                        n = len(ino.durable) + h % (len(new) - len(ino.durable) + 1)
                        ino.data = bytearray(new[:n])
                    else:
                        n = h % (len(new) + 1)
                        ino.data = bytearray(new[:n])
                    ino.durable = bytes(ino.data)
            self.pending = []
            self.durable_ns = dict(self.ns)
        else:
            p = self.proc()
            if p is not None:
                p.group_kill()
        raise SimCrash(kind)

    def hit(self, f, allowed, path=None):
        """Raise/handle a fault for a simple op; returns leftover fault kind."""
        if f is None:
            return None
        if isinstance(f, tuple):          # crash before the op takes effect
            self.crash(f[1], f[2])
        if f in allowed:
            self.fired(f)
            raise OSError(getattr(errno, f), os.strerror(getattr(errno, f)), path)
        return f

    # ---- metadata ------------------------------------------------------
    @staticmethod
    def _apply_meta(ns, m):
        if m[0] == "add":
            ns[m[1]] = m[2]
        elif m[0] == "del":
            ns.pop(m[1], None)
        elif m[0] == "mv":
            ns.pop(m[1], None)
            ns[m[2]] = m[3]

    def meta(self, *m):
        self._apply_meta(self.ns, m)
        self.pending.append(m)

    def commit(self):
        for m in self.pending:
            self._apply_meta(self.durable_ns, m)
        self.pending = []
        self.durable_ns = dict(self.ns)

    def mkdirs(self, path):
        parts = path.strip("/").split("/")
        for i in range(1, len(parts) + 1):
            p = "/" + "/".join(parts[:i])
            if p not in self.ns:
                self.meta("add", p, "DIR")

    def need_parent(self, path):
        par = os.path.dirname(path)
        if self.ns.get(par) != "DIR":
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)

    # ---- file calls ----------------------------------------------------
    def sys_open(self, path, flags):
        write = flags & (os.O_WRONLY | os.O_RDWR)
        cls = "open_w" if write else "open_r"
        f = self.op(cls, os.path.basename(path))
        if f is not None:
            self.hit(f, ("ENOSPC", "EACCES", "EROFS", "EIO", "EMFILE", "EDQUOT") if write else ("EACCES", "EIO", "EMFILE"), path)
        ino = self.ns.get(path)
        if ino == "DIR":
            if write:
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
            fd = self.next_fd
            self.next_fd += 1
            self.fds[fd] = ["DIR", 0, flags, path]
            return fd
        if ino is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            self.need_parent(path)
            ino = Inode()
            self.meta("add", path, ino)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        if flags & os.O_TRUNC and write:
            ino.data = bytearray()
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = [ino, len(ino.data) if flags & os.O_APPEND else 0, flags, path]
        return fd

    def sys_write(self, fd, b):
        b = bytes(b)
        ino, pos, flags, path = self.fds[fd]
        f = self.op("write", "%s+%d" % (os.path.basename(path), len(b)))
        n = len(b)
        crash = None
        if isinstance(f, tuple):
            crash = f
            n = f[2] % (len(b) + 1)
        elif f == "SHORT" and len(b) > 1:
            self.fired("short_write")
            n = 1 + (len(b) * 37 // 100)
        elif f == "TORN_ENOSPC":
            self.fired("torn_write_ENOSPC")
            n = len(b) // 3
        else:
            self.hit(f, ("ENOSPC", "EIO", "EDQUOT", "EINTR_"), path)
        ino.data[pos:pos + n] = b[:n]
        self.fds[fd][1] = pos + n
        if crash:
            self.crash(crash[1], crash[2])
        if f == "TORN_ENOSPC":
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
        return n

    def sys_read(self, fd, n):
        ino, pos, flags, path = self.fds[fd]
        if ino == "DIR":
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
        f = self.op("read", os.path.basename(path))
        self.hit(f, ("EIO",), path)
        if f == "SHORT" and n and n > 1:
            self.fired("short_read")
            n = max(1, min(n, 1 + len(ino.data) * 3 // 10))
        d = bytes(ino.data[pos:pos + n])
        self.fds[fd][1] = pos + len(d)
        return d

    def sys_fsync(self, fd):
        ino, pos, flags, path = self.fds[fd]
        f = self.op("fsync", os.path.basename(path))
        self.hit(f, ("EIO", "ENOSPC"), path)
        if isinstance(ino, Inode):
            ino.durable = bytes(ino.data)
        self.commit()

    def sys_close(self, fd):
        self.fds.pop(fd, None)

    def sys_stat(self, path):
        f = self.op("stat", os.path.basename(path))
        self.hit(f, ("EACCES", "EIO"), path)
        ino = self.ns.get(path)
        if ino is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        return self.mkstat(ino)

    def mkstat(self, ino):
        if ino == "DIR":
            return os.stat_result((statmod.S_IFDIR | 0o755, 1, 1, 2, 0, 0, 4096, 0, 0, 0))
        return os.stat_result((statmod.S_IFREG | 0o644, id(ino) & 0xFFFF, 1, 1, 0, 0, len(ino.data), 0, 0, 0))

    def sys_mkdir(self, path):
        f = self.op("mkdir", os.path.basename(path))
        if path in self.ns:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        self.hit(f, ("ENOSPC", "EACCES", "EROFS", "EIO"), path)
        self.need_parent(path)
        self.meta("add", path, "DIR")

    def sys_unlink(self, path):
        f = self.op("unlink", os.path.basename(path))
        self.hit(f, ("EACCES", "EIO", "EROFS"), path)
        ino = self.ns.get(path)
        if ino is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        if ino == "DIR":
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
        self.meta("del", path)

    def sys_rename(self, a, b):
        f = self.op("rename", os.path.basename(b))
        self.hit(f, ("EACCES", "EIO", "ENOSPC"), b)
        ino = self.ns.get(a)
        if ino is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), a)
        self.need_parent(b)
        self.meta("mv", a, b, ino)

    def sys_list(self, path):
        f = self.op("list", os.path.basename(path))
        self.hit(f, ("EACCES", "EIO"), path)
        if self.ns.get(path) != "DIR":
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        pre = path.rstrip("/") + "/"
        return sorted(p[len(pre):] for p in self.ns if p.startswith(pre) and "/" not in p[len(pre):])


class Proc:
    """One incarnation of a simulated process: its own instance of the module."""

    def __init__(self, module):
        self.module = module
        self.dead = False
        self.running = False
        self.op_faults = []
        self.group = [self]

    def group_kill(self):
        for p in self.group:
            if p.running:
                p.dead = True


class SimRaw(io.RawIOBase):
    def __init__(self, world, fd, mode_r, mode_w, name):
        self._w, self._fd, self._r, self._wr = world, fd, mode_r, mode_w
        self.name = name

    def readable(self):
        return self._r

    def writable(self):
        return self._wr

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def seek(self, off, whence=0):
        ent = self._w.fds[self._fd]
        if whence == 0:
            ent[1] = off
        elif whence == 1:
            ent[1] += off
        else:
            ent[1] = len(ent[0].data) + off
        return ent[1]

    def tell(self):
        return self._w.fds[self._fd][1]

    def truncate(self, size=None):
        ent = self._w.fds[self._fd]
        size = ent[1] if size is None else size
        del ent[0].data[size:]
        return size

    def readinto(self, b):
        d = self._w.sys_read(self._fd, len(b))
        b[: len(d)] = d
        return len(d)

    def write(self, b):
        return self._w.sys_write(self._fd, b)

    def close(self):
        if not self.closed:
            super().close()
            self._w.sys_close(self._fd)


_FLAG = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
         "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND, "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}


def simpath(p):
    """Absolute path if p lives in the simulated home, else None."""
    if isinstance(p, int):
        return None
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = p.decode("utf-8", "surrogateescape")
    if p.startswith("/nonexistent-ddsim"):
        return os.path.normpath(p)
    return None


def install(world):
    """Route file, socket and clock calls to `world` (in this forked child only)."""

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                 closefd=True, opener=None):
        if isinstance(file, int) and file >= FD0:
            fd, name = file, file
        else:
            p = simpath(file)
            if p is None:
                return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            base = mode.replace("b", "").replace("t", "")
            flags = _FLAG[base[0]]
            if "+" in base:
                flags = (flags & ~(os.O_RDONLY | os.O_WRONLY)) | os.O_RDWR
            fd = opener(p, flags) if opener else world.sys_open(p, flags)
            name = p
        ent = world.fds[fd]
        if ent[0] == "DIR":
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), str(name))
        r, w = "r" in mode or "+" in mode, any(c in mode for c in "wax+")
        raw = SimRaw(world, fd, r, w, name)
        if buffering == 0:
            return raw
        buf = io.BufferedRandom(raw) if r and w else (io.BufferedWriter(raw) if w else io.BufferedReader(raw))
        if "b" in mode:
            return buf
        # locale-dependent default, exactly like the interpreter's own
        if encoding is None or encoding == "locale":
            encoding = world.locale
        return io.TextIOWrapper(buf, encoding, errors, newline)

    io.open = sim_open
    builtins.open = sim_open

    def wrap1(name, fn):
        real = _real[name]

        def f(path, *a, **k):
            p = simpath(path)
            if p is None:
                return real(path, *a, **k)
            return fn(p, *a, **k)
        setattr(os, name, f)

    os.open = lambda path, flags, mode=0o777, *, dir_fd=None: (
        world.sys_open(simpath(path), flags) if simpath(path) else _real["open"](path, flags, mode, dir_fd=dir_fd))
    os.close = lambda fd: world.sys_close(fd) if fd >= FD0 else _real["close"](fd)
    os.write = lambda fd, b: world.sys_write(fd, b) if fd >= FD0 else _real["write"](fd, b)
    os.read = lambda fd, n: world.sys_read(fd, n) if fd >= FD0 else _real["read"](fd, n)

    def fsync(fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        return world.sys_fsync(fd) if fd >= FD0 else _real["fsync"](fd)
    os.fsync = fsync
    os.fdatasync = fsync
    os.fstat = lambda fd: world.mkstat(world.fds[fd][0]) if isinstance(fd, int) and fd >= FD0 else _real["fstat"](fd)

    def stat(path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int) and path >= FD0:
            return world.mkstat(world.fds[path][0])
        p = simpath(path)
        if p is None:
            return _real["stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        return world.sys_stat(p)
    os.stat = stat
    wrap1("lstat", lambda p, **k: world.sys_stat(p))
    wrap1("mkdir", lambda p, *a, **k: world.sys_mkdir(p))
    wrap1("unlink", lambda p, **k: world.sys_unlink(p))
    wrap1("remove", lambda p, **k: world.sys_unlink(p))
    wrap1("listdir", lambda p: world.sys_list(p))
    wrap1("chmod", lambda p, *a, **k: None)
    wrap1("utime", lambda p, *a, **k: None)
    wrap1("access", lambda p, *a, **k: p in world.ns)

    def rename(a, b, **k):
        pa, pb = simpath(a), simpath(b)
        if pa is None and pb is None:
            return _real["rename"](a, b, **k)
        if pa is None or pb is None:
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV))
        return world.sys_rename(pa, pb)
    os.rename = rename
    os.replace = rename

    class Entry:
        def __init__(self, d, n):
            self.name, self.path = n, d + "/" + n

        def is_dir(self, follow_symlinks=True):
            return world.ns.get(self.path) == "DIR"

        def is_file(self, follow_symlinks=True):
            return isinstance(world.ns.get(self.path), Inode)

        def is_symlink(self):
            return False

        def stat(self, follow_symlinks=True):
            return world.sys_stat(self.path)

        def __fspath__(self):
            return self.path

    class Scan(list):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def scandir(path="."):
        p = simpath(path)
        if p is None:
            return _real["scandir"](path)
        return Scan(Entry(p, n) for n in world.sys_list(p))
    os.scandir = scandir

    # -------------------------------------------------------------- network
    class SimSocket:
        def __init__(self, host, timeout):
            self.host, self.timeout, self.buf = host, timeout, b""

        def sendall(self, data, *a):
            self.buf += bytes(data)

        def settimeout(self, t):
            self.timeout = t

        def makefile(self, mode="rb", *a, **k):
            return io.BufferedReader(SimResponse(world, self))

        def close(self):
            pass

        def shutdown(self, *a):
            pass

        def setsockopt(self, *a):
            pass

    def connect(conn):
        f = world.op("conn", conn.host)
        t = conn.timeout
        if not isinstance(t, (int, float)):
            t = None
        if isinstance(f, tuple):
            world.crash(f[1], f[2])
        if f in ("EIO_DNS",):
            world.fired("dns_failure")
            import socket
            raise socket.gaierror(-2, "Name or service not known")
        if f == "REFUSED" or (f is None and not world.net_up):
            world.fired("conn_refused" if f else "partition")
            world.now += 0.2
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        if f == "TIMEOUT":
            world.stall(t, "connect_timeout")
        if f == "SSL":
            world.fired("ssl_error")
            import ssl
            raise ssl.SSLError(1, "[SSL] simulated handshake failure")
        conn.sock = SimSocket(conn.host, t)

    http.client.HTTPConnection.connect = connect
    if hasattr(http.client, "HTTPSConnection"):
        http.client.HTTPSConnection.connect = connect
    time.time = lambda: 1.7e9 + world.now
    time.monotonic = lambda: world.now
    time.perf_counter = lambda: world.now

    def sleep(s):
        world.now += s
        world.sched.yield_point("sleep")
    time.sleep = sleep

    def stall(timeout, label):
        world.fired(label)
        if timeout is None:
            world.now += 1e7
            world.hung = True
            p = world.proc()
            if p is not None:
                p.hung = True
            raise SimHang("no timeout configured: the server never answers")
        world.now += timeout
        raise TimeoutError("timed out")
    world.stall = stall


class SimHang(BaseException):
    """The code waits for ever (it set no timeout and the peer is silent)."""


class SimResponse(io.RawIOBase):
    """What the server sends back for the request accumulated in the socket."""

    def __init__(self, world, sock):
        self.w, self.sock = world, sock
        self.data = None
        self.pos = 0
        self.fault = None

    def readable(self):
        return True

    def _prepare(self):
        w = self.w
        head = self.sock.buf.split(b"\r\n", 1)[0].decode("latin-1").split(" ")
        hdrs = self.sock.buf.decode("latin-1")
        path = head[1] if len(head) > 1 else "/"
        host = self.sock.host
        url = path if "://" in path else "https://" + host + path
        self.url = url
        f = w.op("status", url.rsplit("/", 1)[-1])
        if isinstance(f, tuple):
            w.crash(f[1], f[2])
        t = w.sched.me()
        if f in ("S404", "S403", "S500", "S503", "S429"):
            w.fired("http_" + f[1:])
            body = b"error page, not a csv\n"
            self.data = b"HTTP/1.1 %s Err\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (
                f[1:].encode(), len(body)) + body
            return
        if f == "EMPTY_REPLY":
            w.fired("server_closed_without_reply")
            self.data = b""
            return
        if f == "GARBLED":
            w.fired("garbled_status_line")
            self.data = b"\x16\x03\x01 nonsense\r\n\r\n"
            return
        if f == "STALL":
            w.stall(self.sock.timeout, "header_stall")
        ver = w.versions.get(url)
        if ver is None:
            self.data = b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"
            p = w.proc()
            if p is not None:
                p.contacted.append((url, None))
            return
        body = w.render(url, ver)
        p = w.proc()
        if p is not None:
            p.contacted.append((url, ver))
        w.server_log.append((url, ver, t.tid if t else -1))
        if f == "BADUTF8":
            w.fired("undecodable_body")
            body = body[: len(body) // 2] + b"\xff\xfe\xfa" + body[len(body) // 2:]
        self.full = len(body)
        chunked = f == "CHUNKED"
        hdr = b"HTTP/1.1 200 OK\r\nContent-Type: text/csv\r\nConnection: close\r\n"
        if f == "TRUNC":
            w.fired("truncated_body")
            cut = len(body) * 2 // 5
            self.data = hdr + b"Content-Length: %d\r\n\r\n" % len(body) + body[:cut]
        elif chunked:
            half = len(body) // 2
            self.data = hdr + b"Transfer-Encoding: chunked\r\n\r\n" + b"".join(
                b"%x\r\n%s\r\n" % (len(c), c) for c in (body[:half], body[half:]) if c) + b"0\r\n\r\n"
        else:
            self.data = hdr + b"Content-Length: %d\r\n\r\n" % len(body) + body

    def readinto(self, b):
        if self.data is None:
            self._prepare()
        w = self.w
        f = w.op("recv")
        if isinstance(f, tuple):
            w.crash(f[1], f[2])
        if f == "RESET":
            w.fired("conn_reset_mid_body")
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        if f == "STALL":
            w.stall(self.sock.timeout, "body_stall")
        if f == "EARLY_EOF" and self.pos < len(self.data):
            w.fired("early_eof")
            self.data = self.data[: self.pos]
        w.now += 0.05
        n = min(len(b), 4096, len(self.data) - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n
