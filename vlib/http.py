"""A real HTTP server on the loopback interface, one per worker process, with the application of the current case.

Requests are recorded as they come over the wire, before any interpretation by the code under test."""
import os
import threading
from contextlib import contextmanager
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import parse_qsl, unquote, urlsplit

os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"

_server = None


class Request:
    def __init__(self, method, target, headers):
        self.method, self.target, self.headers = method, target, headers
        parts = urlsplit(target)
        self.path, self.query = unquote(parts.path), parts.query
        self.args = parse_qsl(parts.query, keep_blank_values=True, encoding="utf-8", errors="strict")
        self.params = dict(self.args)

    def __repr__(self):
        return "%s %s %r" % (self.method, self.path, self.args)


class Answer:
    def __init__(self, body=b"", status=200, ctype="text/xml; charset=utf-8", headers=()):
        self.body = body.encode("utf-8") if isinstance(body, str) else body
        self.status, self.ctype, self.headers = status, ctype, list(headers)


def xml_answer(rng, s, ctypes, headers=()):
    """An XML document, in a charset that the header names."""
    if rng.random() < 0.85:
        return Answer(rng.choice(["", "<?xml version='1.0' encoding='UTF-8'?>\n"]) + s, 200, rng.choice(ctypes), headers)
    enc = rng.choice(["utf-16", "iso-8859-1", "windows-1252", "iso-8859-7"])
    try:
        s.encode(enc)
    except UnicodeEncodeError:
        enc = "utf-16"
    s = rng.choice(["", "<?xml version='1.0' encoding='%s'?>\n" % enc.upper(), '<?xml version="1.0"?>']) + s
    return Answer(s.encode(enc), 200, "%s; charset=%s" % (rng.choice(ctypes).split(";")[0], enc), headers)


class _Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def do(self):
        srv = self.server
        n = int(self.headers.get("Content-Length") or 0)
        if n:
            self.rfile.read(n)
        req = Request(self.command, self.path, self.headers)
        srv.log.append(req)
        if len(srv.log) > srv.limit:
            srv.runaway = True
            a = Answer(b"runaway", 508)
        else:
            try:
                a = srv.app(req)
            except Exception as e:      # noqa
                srv.errors.append("%r while answering %r" % (e, req))
                a = Answer(repr(e), 500)
        self.send_response(a.status)
        if a.ctype is not None:
            self.send_header("Content-Type", a.ctype)
        for k, v in a.headers:
            self.send_header(k, v.encode("utf-8").decode("latin-1"))
        self.send_header("Content-Length", str(len(a.body)))
        self.send_header("Connection", "close")
        self.end_headers()
        if self.command != "HEAD":
            self.wfile.write(a.body)
        self.close_connection = True

    do_GET = do_POST = do_PUT = do_DELETE = do_HEAD = do

    def log_message(self, *a):
        pass


def _start():
    global _server
    if _server is None or _server.pid != os.getpid():
        _server = ThreadingHTTPServer(("", 0), _Handler)        # every loopback address
        _server.daemon_threads = True
        _server.pid = os.getpid()
        threading.Thread(target=_server.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()
    return _server


class Site:
    def __init__(self, srv):
        self.srv = srv
        self.root = "http://127.0.0.1:%d" % srv.server_address[1]

    @property
    def log(self):
        return self.srv.log

    def take(self):
        """Requests since last asked."""
        out = list(self.srv.log)
        del self.srv.log[:]
        return out


@contextmanager
def serving(app, limit=2000):
    """limit: requests between two take() above which the client counts as running away."""
    srv = _start()
    srv.app, srv.log, srv.limit, srv.runaway, srv.errors = app, [], limit, False, []
    yield Site(srv)
    if srv.runaway:
        raise AssertionError("more than %d requests in a row" % limit)
    if srv.errors:
        raise RuntimeError("harness server failed: " + srv.errors[0])
