"""Simulated TCP: sockets whose peers are scripted HTTP servers.

While a Wire is installed, name resolution and socket creation of the whole
process lead to simulated servers.  The real HTTP client libraries (http.client
and urllib, urllib3 and requests, httplib2) run on top; libcurl, which is not
Python, is replaced by a model of its documented behaviour (CurlStub).

A page is a dict:
  status, headers [[name, value]..], size (body bytes), frame 'length' |
  'chunked' | 'close', endless (a body without end), raw (these bytes instead
  of a response head), interim (100 Continue first), lag (seconds to answer)
A fault is a dict n (ordinal of the request in this fetch) and kind:
  refuse | unresolved | reset | cut (with at: position in the response, in
  fractions of the head or the body) | slow (seconds between two pieces)
"""
import errno
import io
import re
import socket
from urllib.parse import urlsplit

CRLF = b'\r\n'
UNBOUNDED = 3 << 20


def body_of(page, target):
    """The full body; every page and every request target has its own."""
    stamp = ('%s %s|' % (page['id'], target.rstrip('?'))).encode('utf-8')
    size = page['size']
    return (stamp * (size // len(stamp) + 1))[:size]


class Wire(object):
    def __init__(self, sim, hosts, lookup):
        self.sim = sim
        self.hosts = hosts         # name -> ip
        self.names = dict((v, k) for k, v in hosts.items())
        self.lookup = lookup       # (host, port, target) -> page or None
        self.log = []              # requests that arrived
        self.over = False
        self.saved = None

    def install(self):
        self.saved = (socket.socket, socket.getaddrinfo)
        wire = self

        class Socket(SimSocket):
            def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
                SimSocket.__init__(self, wire, family, type, proto)
        socket.socket = Socket
        socket.getaddrinfo = self.getaddrinfo

    def uninstall(self):
        socket.socket, socket.getaddrinfo = self.saved

    def fault(self):
        """Fault planned for the request the current operation makes next."""
        ctx = self.sim.ctx
        for f in getattr(ctx, 'net_faults', None) or ():
            if f['n'] == getattr(ctx, 'net_n', 0):
                return f
        return None

    def hit(self, f):
        if not f.get('hit'):
            self.sim.count_fault('tcp_' + f['kind'])
        getattr(self.sim.ctx, 'hits', []).append(dict(f))

    def getaddrinfo(self, host, port, family=0, type=0, proto=0, flags=0):
        self.sim.point('dns', str(host))
        if isinstance(host, bytes):
            host = host.decode('ascii', 'replace')
        f = self.fault()
        if f is not None and f['kind'] == 'unresolved':
            self.hit(f)
            raise socket.gaierror(-3, 'Temporary failure in name resolution')
        ip = self.hosts.get(host.lower())
        if ip is None:
            raise socket.gaierror(-2, 'Name or service not known')
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', (ip, int(port or 80)))]

    def answer(self, ip, port, method, target, headers, body):
        """A request arrived: (stream of the response, keep alive)."""
        sim = self.sim
        ctx = sim.ctx
        n = getattr(ctx, 'net_n', 0)
        f = self.fault()
        ctx.net_n = n + 1
        host = self.names[ip]
        page = self.lookup(host, port, target)
        self.log.append(dict(ev=getattr(ctx, 'ev', None), host=host, port=port, method=method, target=target, headers=headers, body=body, page=page, fault=f))
        sim.log('request', method, host, port, target, len(body))
        return Stream(self, page or dict(id='none', status=404, headers=[['Content-Type', 'text/plain']], size=9, frame='length'), target, f)


class Stream(object):
    """The bytes of one response, with whatever happens to them."""

    def __init__(self, wire, page, target, fault):
        self.wire, self.page, self.target, self.fault = wire, page, target, fault
        self.keep = page['frame'] != 'close' and not page.get('raw') and not page.get('endless')
        self.at = 0
        self.total = None
        head = self.head()
        body = self.body()
        self.fixed = head + body
        self.headlen = len(head)
        self.stop = None
        if fault is not None and fault['kind'] in ('cut', 'reset'):
            fr = fault['at']
            self.stop = int(len(head) * fr) if fr < 1 else len(head) + int(len(body) * (fr - 1))
            self.stop = min(self.stop, len(self.fixed) - 1 if page['frame'] != 'close' else len(self.fixed))
        self.lag = page.get('lag', 0)

    def head(self):
        p = self.page
        if p.get('raw') is not None:
            return p['raw'].encode('latin-1')
        out = []
        if p.get('interim'):
            out.append(b'HTTP/1.1 100 Continue\r\n\r\n')
        out.append(('HTTP/1.%d %d %s\r\n' % (0 if p['frame'] == 'close' else 1, p['status'], p.get('reason', 'Fine'))).encode('latin-1'))
        for k, v in p['headers']:
            out.append(('%s: %s\r\n' % (k, v)).encode('latin-1'))
        if p['frame'] == 'length':
            out.append(b'Content-Length: %d\r\n' % (1 << 40 if p.get('endless') else p['size']))
        elif p['frame'] == 'chunked':
            out.append(b'Transfer-Encoding: chunked\r\n')
        else:
            out.append(b'Connection: close\r\n')
        out.append(CRLF)
        return b''.join(out)

    def body(self):
        p = self.page
        if p.get('raw') is not None:
            return b''
        b = body_of(p, self.target)
        if p['frame'] != 'chunked':
            return b
        out = []
        step = p.get('chunk', 1000)
        for i in range(0, len(b), step):
            c = b[i:i + step]
            out.append(b'%x\r\n' % len(c) + c + CRLF)
        if not p.get('endless'):
            out.append(b'0\r\n\r\n')
        return b''.join(out)

    def read(self, n):
        """Up to n bytes; b'' at the end; raises what a socket raises."""
        wire = self.wire
        if self.lag:
            lag, self.lag = self.lag, 0
            wire.wait(lag)
        f = self.fault
        if f is not None and f['kind'] == 'slow':
            if self.at < len(self.fixed):
                wire.hit(f)
                wire.wait(f['secs'])
            n = min(n, max(1 if not self.page.get('endless') else 20000, len(self.fixed) // 6))
        if self.stop is not None and self.at >= self.stop:
            wire.hit(f)
            if f['kind'] == 'reset':
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            return b''
        piece = wire.piece()
        end = self.at + max(1, min(n, piece))
        if self.stop is not None:
            end = min(end, self.stop)
        if self.page.get('endless') and self.at >= len(self.fixed):
            wire.sim.count_fault('tcp_endless')
            self.at += n
            if self.at > UNBOUNDED:
                wire.over = True
                raise ConnectionResetError(errno.ECONNRESET, 'gave up')
            unit = b'x' * 1000
            if self.page['frame'] == 'chunked':
                unit = b'3e8\r\n' + unit + CRLF
            if not hasattr(self, 'tail'):
                self.tail = b''
            while len(self.tail) < n:
                self.tail += unit * (n // len(unit) + 1)
            out, self.tail = self.tail[:n], self.tail[n:]
            return out
        out = self.fixed[self.at:end]
        self.at += len(out)
        return out

    @property
    def done(self):
        return not self.page.get('endless') and self.at >= len(self.fixed)


def _wait(self, secs):
    end = getattr(self.sim.ctx, 'deadline', None)
    if end is not None and self.sim.now + secs > end:
        late = max(0, end - self.sim.now) + 0.01
        self.sim.ctx.deadline = None
        self.wait(late)
        raise CurlError(28, 'Operation timed out')
    if self.sim.task is not None:
        self.sim.block(timeout=secs)
    else:
        self.sim.advance(secs)


def _piece(self):
    p = getattr(self.sim.ctx, 'pieces', None)
    if not p:
        return 1 << 30
    i = self.sim.ctx.piece_i = getattr(self.sim.ctx, 'piece_i', -1) + 1
    return p[i % len(p)]


Wire.wait = _wait
Wire.piece = _piece


class SimSocket(object):
    def __init__(self, wire, family, type, proto):
        self.wire, self.family, self.type, self.proto = wire, family, type, proto
        self.buf = b''
        self.streams = []
        self.timeout = None
        self.peer = None
        self.closed = False
        self.eof = False
        self.ftp = None
        self.ready = b''
        self._io_refs = 0

    # -- set-up ------------------------------------------------------------
    def settimeout(self, t):
        self.timeout = t if isinstance(t, (int, float)) else None

    def gettimeout(self):
        return self.timeout

    def setblocking(self, b):
        self.timeout = None if b else 0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def bind(self, a):
        pass

    def fileno(self):
        return 1000

    def getpeername(self):
        return self.peer

    def getsockname(self):
        return ('127.0.0.1', 40000)

    def connect(self, addr):
        w = self.wire
        w.sim.point('connect', str(addr))
        f = w.fault()
        if f is not None and f['kind'] == 'refuse':
            w.hit(f)
            w.sim.ctx.net_n = getattr(w.sim.ctx, 'net_n', 0) + 1
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        ip = addr[0] if addr[0] in w.names else w.hosts.get(addr[0].lower())
        if ip is None:
            raise socket.gaierror(-2, 'Name or service not known')
        if addr[1] == 21:
            self.ftp = Ftp(w)
        elif addr[1] == FTP_DATA:
            self.eof = True
            self.ready = FTP_FILE
        elif addr[1] not in (80, 8080):
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        self.peer = (ip, addr[1])

    # -- data --------------------------------------------------------------
    def sendall(self, data, flags=0):
        w = self.wire
        w.sim.point('send', str(len(data)))
        if self.closed or self.peer is None:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if self.eof:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        if self.ftp is not None:
            self.ftp.command(bytes(data))
            return
        self.buf += bytes(data)
        while True:
            head, sep, rest = self.buf.partition(CRLF + CRLF)
            if not sep:
                return
            lines = head.split(CRLF)
            m = re.match(rb'([A-Z]+) (\S+) HTTP/1\.[01]\Z', lines[0])
            if not m:
                self.eof = True
                return
            hs = dict((k.strip().lower(), v.strip()) for k, _, v in (l.decode('latin-1').partition(':') for l in lines[1:]))
            n = int(hs.get('content-length', 0))
            if len(rest) < n:
                return
            self.buf = rest[n:]
            self.streams.append(w.answer(self.peer[0], self.peer[1], m.group(1).decode(), m.group(2).decode('latin-1'), hs, rest[:n]))

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def recv(self, n, flags=0):
        w = self.wire
        w.sim.point('recv', '')
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if self.ftp is not None:
            self.ready, self.ftp.out = self.ftp.out, b''
        if self.ready:
            out, self.ready = self.ready[:n], self.ready[n:]
            return out
        while self.streams:
            s = self.streams[0]
            t0 = w.sim.now
            out = s.read(n)
            if self.timeout and w.sim.now - t0 > self.timeout:
                raise socket.timeout('timed out')
            if out:
                return out
            if s.done and s.keep and s.stop is None:
                self.streams.pop(0)
                continue
            self.eof = True
            return b''
        if self.eof:
            return b''
        # nothing was asked: nothing will ever come
        self.eof = True
        raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')

    def recv_into(self, buf, n=0, flags=0):
        d = self.recv(n or len(buf))
        buf[:len(d)] = d
        return len(d)

    def makefile(self, mode='r', buffering=None, **kw):
        self._io_refs += 1
        return _Reader(_Raw(self))

    def shutdown(self, how):
        self.eof = True

    def close(self):
        self.closed = self._io_refs <= 0
        self.closing = True

    def _release(self):
        self._io_refs -= 1
        if getattr(self, 'closing', False) and self._io_refs <= 0:
            self.closed = True

    def detach(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


FTP_DATA = 2048
FTP_FILE = b'a file from an FTP server'


class Ftp(object):
    """Just enough of an FTP server to hand out one file."""

    def __init__(self, wire):
        self.out = b'220 ready\r\n'
        wire.sim.probe('ftp')

    def command(self, line):
        c = line.split()[0].upper() if line.split() else b''
        self.out += {b'USER': b'331 go on\r\n', b'PASS': b'230 fine\r\n', b'TYPE': b'200 fine\r\n', b'CWD': b'250 fine\r\n', b'PASV': b'227 Entering (10,0,0,1,8,0)\r\n',
                     b'RETR': b'150 coming\r\n226 done\r\n', b'NLST': b'150 coming\r\n226 done\r\n', b'SIZE': b'213 25\r\n', b'QUIT': b'221 bye\r\n'}.get(c, b'502 no\r\n')


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        return self.sock.recv_into(b)

    def close(self):
        if not self.closed:
            self.sock._release()
        io.RawIOBase.close(self)


class _Reader(io.BufferedIOBase):
    """A buffered reader that holds no real lock while it waits for data."""

    def __init__(self, raw):
        self.raw_ = raw
        self.data = b''

    def readable(self):
        return True

    def fill(self, n):
        b = bytearray(max(n, 8192))
        k = self.raw_.readinto(b)
        self.data += bytes(b[:k])
        return k

    def take(self, n):
        out, self.data = self.data[:n], self.data[n:]
        return out

    def read(self, n=-1):
        if n is None or n < 0:
            while self.fill(65536):
                pass
            return self.take(len(self.data))
        while len(self.data) < n and self.fill(n - len(self.data)):
            pass
        return self.take(n)

    def read1(self, n=-1):
        if not self.data:
            self.fill(8192)
        return self.take(len(self.data) if n is None or n < 0 else n)

    def peek(self, n=0):
        if not self.data:
            self.fill(8192)
        return self.data

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def readinto1(self, b):
        d = self.read1(len(b))
        b[:len(d)] = d
        return len(d)

    def readline(self, limit=-1):
        while True:
            i = self.data.find(b'\n')
            if i >= 0 or 0 <= limit <= len(self.data) or not self.fill(1):
                break
        n = i + 1 if i >= 0 else len(self.data)
        return self.take(min(n, limit) if limit is not None and limit >= 0 else n)

    def close(self):
        self.raw_.close()
        io.BufferedIOBase.close(self)


# --------------------------------------------------------------------- curl

class CurlError(Exception):
    pass


class CurlStub(object):
    """Stands in for the pycurl module on a Wire."""
    NOSIGNAL, HTTPHEADER, POST, POSTFIELDS, WRITEFUNCTION, HEADERFUNCTION, TIMEOUT, URL, RESPONSE_CODE, FOLLOWLOCATION, MAXREDIRS, MAXFILESIZE, CONNECTTIMEOUT, PROTOCOLS, \
        REDIR_PROTOCOLS, HTTPGET, EFFECTIVE_URL, USERAGENT, TIMEOUT_MS, PROTO_HTTP, PROTO_HTTPS = range(1, 22)
    error = CurlError
    version = 'PycURL/sim'

    def __init__(self, wire):
        self.wire = wire

    def Curl(self):
        return Curl(self, self.wire)


class Curl(object):
    def __init__(self, mod, wire):
        self.m, self.wire = mod, wire
        self.o = {}
        self.code = 0
        self.post = False

    def setopt(self, k, v):
        if k == self.m.POST:
            self.post = bool(v)
        if k == self.m.POSTFIELDS:
            self.post = True
        if k == self.m.HTTPGET and v:
            self.post = False
        if k == self.m.TIMEOUT and v <= 0:
            v = None
        self.o[k] = v

    def getinfo(self, k):
        return {self.m.RESPONSE_CODE: self.code, self.m.EFFECTIVE_URL: self.o.get(self.m.URL)}[k]

    def close(self):
        pass

    def perform(self):
        w, m, sim = self.wire, self.m, self.wire.sim
        url = self.o[m.URL]
        p = urlsplit(url)
        if p.scheme not in ('http', 'https') or not p.hostname:
            raise CurlError(1, 'Protocol not supported')
        start = sim.now
        limit = self.o.get(m.TIMEOUT)
        sim.ctx.deadline = None if limit is None else start + limit
        try:
            ai = w.getaddrinfo(p.hostname, p.port or {'http': 80, 'https': 443}[p.scheme])
            s = SimSocket(w, 0, 0, 0)
            w.wait(0.02)
            s.connect(ai[0][4])
            target = (p.path or '/') + ('?' + p.query if p.query else '')
            body = self.o.get(m.POSTFIELDS, b'') if self.post else b''
            req = ['%s %s HTTP/1.1' % ('POST' if self.post else 'GET', target), 'Host: ' + p.netloc]
            req += self.o.get(m.HTTPHEADER, [])
            if self.post:
                req.append('Content-Length: %d' % len(body))
            s.sendall('\r\n'.join(req).encode('utf-8') + CRLF + CRLF + body)
            r = s.makefile('rb')
            self.response(r, start, limit)
        except socket.gaierror:
            raise CurlError(6, 'Could not resolve host')
        except ConnectionRefusedError:
            raise CurlError(7, 'Failed to connect')
        except OSError:
            raise CurlError(56, 'Recv failure')
        finally:
            sim.ctx.deadline = None

    def check(self, start, limit):
        if limit is not None and self.wire.sim.now - start > limit:
            raise CurlError(28, 'Operation timed out')

    def response(self, r, start, limit):
        m = self.m
        hf, wf = self.o[m.HEADERFUNCTION], self.o[m.WRITEFUNCTION]
        while True:
            hs = {}
            first = True
            while True:
                line = r.readline()
                self.check(start, limit)
                if not line.endswith(b'\n'):
                    raise CurlError(52 if not line and first else 56, 'Empty reply from server')
                if first:
                    mm = re.match(rb'HTTP/1\.[01] (\d{3})', line)
                    if not mm:
                        raise CurlError(1, 'Received HTTP/0.9 when not allowed')
                    self.code = int(mm.group(1))
                    first = False
                hf(line)
                if not line.strip():
                    break
                k, _, v = line.decode('latin-1').partition(':')
                hs[k.strip().lower()] = v.strip()
            if self.code != 100:
                break

        def give(chunk):
            n = wf(chunk)
            if n is not None and n != len(chunk):
                raise CurlError(23, 'Failed writing received data')
        if self.code in (204, 304):
            return
        if hs.get('transfer-encoding') == 'chunked':
            while True:
                line = r.readline()
                self.check(start, limit)
                try:
                    n = int(line.strip(), 16)
                except ValueError:
                    raise CurlError(56, 'Illegal or missing hexadecimal sequence')
                if n == 0:
                    return
                d = r.read(n + 2)
                if len(d) < n + 2:
                    raise CurlError(18, 'transfer closed with outstanding read data remaining')
                give(d[:n])
        left = int(hs['content-length']) if 'content-length' in hs else None
        while left is None or left > 0:
            d = r.read1(min(16384, left) if left is not None else 16384)
            self.check(start, limit)
            if not d:
                if left is not None:
                    raise CurlError(18, 'transfer closed with %d bytes remaining to read' % left)
                return
            give(d)
            if left is not None:
                left -= len(d)
