"""Watches what the process does: audit events of the interpreter, accesses of canary files (inotify), connections to a listener."""
import ctypes
import os
import shutil
import socket
import sys
import tempfile
import threading

IN_ACCESS, IN_OPEN = 0x1, 0x20
NETWORK = ('socket.connect', 'socket.getaddrinfo', 'socket.gethostbyname', 'socket.sendto', 'urllib.Request', 'ftplib.connect', 'http.client.connect')
PROCESSES = ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.fork', 'os.forkpty', 'pty.spawn')

_active = None
_installed = False


def _audit(event, args):
    if _active is not None:
        _active(event, args)


class Recorder:
    """Records audit events of the current thread while active, select(event, args) says which."""

    def __init__(self, select):
        self.select, self.events = select, []

    def __call__(self, event, args):
        if threading.get_ident() == self.thread and self.select(event, args):
            self.events.append((event, repr(args)[:300]))

    def __enter__(self):
        global _active, _installed
        if not _installed:
            sys.addaudithook(_audit)
            _installed = True
        self.thread = threading.get_ident()
        self.outer, _active = _active, self
        return self

    def __exit__(self, *args):
        global _active
        _active = self.outer


class Canary:
    """Files nobody may open and a port nobody may connect to, one per process."""

    _canary = None

    @classmethod
    def get(cls):
        if cls._canary is None or cls._canary[0] != os.getpid():
            cls._canary = os.getpid(), cls()
        return cls._canary[1]

    def __init__(self):
        import atexit
        import multiprocessing.util
        self.directory = os.path.realpath(tempfile.mkdtemp(prefix='vf-canary-'))
        remove = lambda: shutil.rmtree(self.directory, ignore_errors=True)
        atexit.register(remove)
        multiprocessing.util.Finalize(None, remove, exitpriority=10)
        self.token = 'CANARYf00d'
        self.files = {}
        contents = {
            'canary.txt': self.token,
            'canary.xml': f'<canary>{self.token}</canary>',
            'canary.dtd': f'<!ENTITY leak "{self.token}"><!ENTITY % more "{self.token}">',
            'canary.xsd': ('<xsd:schema xmlns:xsd="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:canary">'
                           f'<xsd:element name="canary" type="xsd:string" default="{self.token}"/></xsd:schema>'),
            'canary.xsl': f'<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform"><x>{self.token}</x></xsl:stylesheet>',
        }
        for name, content in contents.items():
            with open(os.path.join(self.directory, name), 'w') as f:
                f.write(content)
        libc = ctypes.CDLL(None, use_errno=True)
        self.inotify = libc.inotify_init1(os.O_NONBLOCK)
        if self.inotify < 0 or libc.inotify_add_watch(self.inotify, self.directory.encode(), IN_ACCESS | IN_OPEN) < 0:
            raise OSError(ctypes.get_errno(), 'inotify')
        self.listener = socket.create_server(('127.0.0.1', 0), backlog=64)
        self.port = self.listener.getsockname()[1]
        self.connections = []
        self.lock = threading.Lock()
        threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self):
        while True:
            connection, address = self.listener.accept()
            with self.lock:
                self.connections.append(address)
            # Answer like a HTTP server so a vulnerable client gets something.
            try:
                body = self.token.encode()
                connection.sendall(b'HTTP/1.0 200 OK\r\nContent-Length: %d\r\n\r\n%s' % (len(body), body))
            except OSError:
                pass
            connection.close()

    def touched(self):
        """What has happened to the canaries since the last call: (names of opened files, connections)."""
        names = []
        while True:
            try:
                data = os.read(self.inotify, 65536)
            except BlockingIOError:
                break
            while data:
                mask, length = int.from_bytes(data[4:8], sys.byteorder), int.from_bytes(data[12:16], sys.byteorder)
                names.append((data[16:16 + length].rstrip(b'\0').decode(), 'open' if mask & IN_OPEN else 'read'))
                data = data[16 + length:]
        names = [n for n in names if n[0]]
        with self.lock:
            connections, self.connections = self.connections, []
        return names, connections

    def selftest(self):
        """The monitors have to see an open and a connection."""
        self.touched()
        with open(os.path.join(self.directory, 'canary.txt')) as f:
            f.read()
        with Recorder(lambda event, args: event in NETWORK) as recorder:
            with socket.create_connection(('127.0.0.1', self.port)) as s:
                while s.recv(1000):
                    pass
        names, connections = self.touched()
        if ('canary.txt', 'open') not in names or len(connections) != 1 or not recorder.events:
            raise RuntimeError(f'The monitors are blind: {names} {connections} {recorder.events}')
