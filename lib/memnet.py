"""TCP connections in memory, for servers and clients in one virtual time event loop.

Connections to addresses nobody listens on are refused. Faults: net.fault(host, port) -> None or
  ("refuse",)           the connection is refused
  ("hang",)             connecting takes forever
  ("delay", seconds)    connecting takes that long
and per request net.request(host, text of the request's first part) -> None or
  ("drop",)             the connection breaks, the server gets nothing
  ("mute",)             the server gets nothing, nobody answers
  ("lose", n)           the server gets everything, n bytes of its answer arrive, then the connection breaks
  ("silent",)           the server gets everything, its answer never arrives
  ("answer", bytes)     somebody else answers, the server gets nothing
"""
import asyncio
import re


REQUEST = re.compile(rb"(GET|HEAD|POST|PUT|DELETE|PATCH) ")


class End(asyncio.Transport):
    def __init__(self, net, name, peername):
        super().__init__({"peername": peername, "sockname": name})
        self.net = net
        self.loop = net.loop
        self.proto = None
        self.other = None
        self.closing = False
        self.paused = False
        self.pending = []
        self.left = None  # bytes that still can be sent
        self.sink = False  # what is sent goes nowhere
        self.client = False
        self.act = None

    def get_protocol(self):
        return self.proto

    def set_protocol(self, p):
        self.proto = p

    def write(self, data):
        if self.closing or not data:
            return
        if self.client and self.net.request and REQUEST.match(data):
            self.act = act = self.net.request(self.get_extra_info("peername")[0], data)
            if act is not None:
                if act[0] == "drop":
                    self.close()
                    return
                elif act[0] == "lose":
                    self.other.left = act[1]
                elif act[0] == "silent":
                    self.other.sink = True
                elif act[0] == "answer":
                    self.loop.call_soon(self._receive, act[1])
        if self.act is not None and self.act[0] in ("mute", "answer"):
            return
        if self.sink:
            return
        data = bytes(data)
        if self.left is not None:
            data = data[:self.left]
            self.left -= len(data)
        if data:
            self.loop.call_soon(self.other._receive, data)
        if self.left == 0:
            self.close()

    def writelines(self, list_of_data):
        self.write(b"".join(list_of_data))

    def _receive(self, data):
        if self.closing:
            return
        if self.paused:
            self.pending.append(data)
        else:
            self.proto.data_received(data)

    def pause_reading(self):
        self.paused = True

    def resume_reading(self):
        self.paused = False
        p, self.pending = self.pending, []
        for d in p:
            self.loop.call_soon(self._receive, d)

    def is_reading(self):
        return not self.paused

    def is_closing(self):
        return self.closing

    def can_write_eof(self):
        return False

    def get_write_buffer_size(self):
        return 0

    def get_write_buffer_limits(self):
        return 0, 65536

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def close(self):
        if self.closing:
            return
        self.closing = True
        self.loop.call_soon(self.proto.connection_lost, None)
        if not self.sink:
            self.loop.call_soon(self.other._eof)

    abort = close

    def _eof(self):
        if self.closing:
            return
        self.proto.eof_received()
        self.close()


class Server:
    def __init__(self, net, key):
        self.net, self.key = net, key
        self.sockets = []

    def close(self):
        self.net.servers.pop(self.key, None)

    async def wait_closed(self):
        pass

    def is_serving(self):
        return self.key in self.net.servers


class Net:
    def __init__(self, loop):
        self.loop = loop
        self.servers = {}
        self.fault = self.request = None
        self.connections = []
        loop.create_server = self.create_server
        loop.create_connection = self.create_connection

    async def create_server(self, factory, host=None, port=None, **kw):
        key = (host, port)
        if key in self.servers:
            raise OSError(98, "address already in use")
        self.servers[key] = factory
        return Server(self, key)

    async def create_connection(self, factory, host=None, port=None, **kw):
        await asyncio.sleep(0)
        f = self.fault(host, port) if self.fault else None
        if f and f[0] == "hang":
            await asyncio.sleep(10**7)
        if f and f[0] == "delay":
            await asyncio.sleep(f[1])
        if (host, port) not in self.servers or f and f[0] == "refuse":
            raise ConnectionRefusedError(111, f"connect call failed {host}")
        me, other = ("10.0.0.99", 40000 + len(self.connections)), (host, port)
        c, s = End(self, me, other), End(self, other, me)
        c.other, s.other = s, c
        c.proto, s.proto = factory(), self.servers[host, port]()
        c.client = True
        self.connections.append((c, s))
        s.proto.connection_made(s)
        c.proto.connection_made(c)
        return c, c.proto


class Raw(asyncio.Protocol):
    """client that sees bytes"""

    def __init__(self):
        self.data = b""
        self.lost = False
        self.tr = None

    def connection_made(self, tr):
        self.tr = tr

    def data_received(self, d):
        self.data += d

    def connection_lost(self, exc):
        self.lost = True

    def take(self, head=False):
        """(status, headers, body) of the next response, None: incomplete"""
        while True:
            i = self.data.find(b"\r\n\r\n")
            if i < 0:
                return None
            lines = self.data[:i].decode("latin-1").split("\r\n")
            status = int(lines[0].split()[1])
            headers = {}
            for x in lines[1:]:
                k, _, v = x.partition(":")
                headers[k.strip().lower()] = v.strip()
            rest = self.data[i + 4:]
            if 100 <= status < 200:
                self.data = rest
                continue
            break
        if head or status in (204, 304):
            n = 0
        elif headers.get("transfer-encoding", "").lower() == "chunked":
            body, r = b"", rest
            while True:
                size, sep, r = r.partition(b"\r\n")
                if not sep:
                    return None
                k = int(size.split(b";")[0], 16)
                if len(r) < k + 2:
                    return None
                body += r[:k]
                r = r[k + 2:]
                if not k:
                    self.data = r
                    return status, headers, body
        elif "content-length" in headers:
            n = int(headers["content-length"])
        else:
            if not self.lost:
                return None
            n = len(rest)
        if len(rest) < n:
            return None
        self.data = rest[n:]
        return status, headers, rest[:n]
