"""In-memory serial ports, patched in at serial.serial_for_url / serial.Serial."""
import asyncio
import itertools

import serial
import serial.tools.list_ports
import serial_asyncio

_fds = itertools.count(1000)


class Line:
    """What is attached to a path: keeps its own history and the open handles on it."""

    def __init__(self, world, path):
        self.world = world
        self.path = path
        self.present = True  # False: opening fails
        self.open_error = None
        self.handles = []
        self.opened = []  # (time, kwargs)
        self.on_write = None  # callable(handle, bytes)
        self.on_open = None
        self.on_close = None


class FakeSerial:
    def __init__(self, line, args, kwargs):
        self.line = line
        self.world = line.world
        self.args = args
        self.kwargs = kwargs
        self.fd = next(_fds)
        self.is_open = True
        self.timeout = None
        self.write_timeout = None
        self.inbuf = b""
        self.dead = None  # exception raised by read/write (unplugged)
        self.dead_write = None
        self.failed_at = None  # first failing write
        self.tx = []  # (time, bytes)
        self.writers = []  # (bytes, task) of what the code has handed to the transport
        self.opened_at = self.world.loop.time()
        self.closed_at = None

    # file protocol for EnvLoop
    def readable(self):
        return bool(self.inbuf) or self.dead is not None

    def writable(self):
        return True

    # pyserial API used by serial_asyncio
    def fileno(self):
        return self.fd

    @property
    def in_waiting(self):
        return len(self.inbuf)

    @property
    def out_waiting(self):
        return 0

    def read(self, n=1):
        if self.inbuf:
            res, self.inbuf = self.inbuf[:n], self.inbuf[n:]
            self.world.host_read(self, res)
            return res
        if self.dead is not None:
            raise self.dead
        return b""

    def write(self, data):
        assert self.is_open, "write to a closed port"
        if self.dead_write is not None:
            if self.failed_at is None:
                self.failed_at = self.world.loop.time()
            raise self.dead_write
        data = bytes(data)
        n = self.world.write_size(self, data)
        if n < 0:
            raise BlockingIOError
        if n:
            self.tx.append((self.world.loop.time(), data[:n]))
            if self.line.on_write is not None:
                self.line.on_write(self, data[:n])
        return n

    def flush(self):
        pass

    def close(self):
        if self.is_open:
            self.is_open = False
            self.closed_at = self.world.loop.time()
            self.world.loop.files.pop(self.fd, None)
            self.world.loop.readers.pop(self.fd, None)
            self.world.loop.writers.pop(self.fd, None)
            if self.line.on_close is not None:
                self.line.on_close(self)

    # the other side
    def feed(self, data):
        if self.is_open and self.dead is None:
            self.inbuf += data

    def unplug(self, exc=None):
        self.dead = exc or serial.SerialException("device disconnected")
        self.dead_write = self.dead


class Ports:
    """Registry of fake lines; one per World."""

    def __init__(self, world):
        self.world = world
        self.lines = {}
        self.handles = []
        self.comports = []
        self.unknown = []

    def add(self, path):
        line = Line(self.world, path)
        self.lines[path] = line
        return line

    def open(self, url=None, *args, **kwargs):
        if "port" in kwargs and url is None:
            url = kwargs.pop("port")
        line = self.lines.get(url)
        now = self.world.loop.time()
        if line is None:
            self.unknown.append(url)
            raise serial.SerialException("could not open port %s" % url)
        line.opened.append((now, dict(kwargs, _args=args)))
        exc = self.world.open_result(line)
        if exc is not None:
            raise exc
        h = FakeSerial(line, args, kwargs)
        line.handles.append(h)
        self.handles.append(h)
        self.world.loop.files[h.fd] = h
        if line.on_open is not None:
            line.on_open(h)
        return h

    def open_handles(self):
        return [h for h in self.handles if h.is_open]


_current = None


def install(ports):
    global _current
    _current = ports


def _open(*args, **kwargs):
    return _current.open(*args, **kwargs)


def _comports(include_links=False):
    return list(_current.comports) if _current is not None else []


serial.serial_for_url = _open
serial.Serial = _open
serial_asyncio.serial.serial_for_url = _open
serial.tools.list_ports.comports = _comports


def _note_writer(real):
    def write(self, data):
        try:
            self._serial.writers.append((bytes(data), asyncio.current_task()))
        except Exception:
            pass
        return real(self, data)
    write._mc_real = real
    return write


_write = serial_asyncio.SerialTransport.write
serial_asyncio.SerialTransport.write = _note_writer(getattr(_write, "_mc_real", _write))
