"""A loopback HTTP server which records what it receives."""
import http.server
import io
import threading


class Exchange:
    def __init__(self, method, path, headers, content):
        self.method, self.path, self.headers, self.content = method, path, headers, content


class Server:
    """One per process, answer(exchange) -> (status, headers, content)."""

    _servers = {}

    @classmethod
    def get(cls):
        import os
        if os.getpid() not in cls._servers:
            cls._servers.clear()
            cls._servers[os.getpid()] = cls()
        server = cls._servers[os.getpid()]
        server.reset()
        return server

    def __init__(self):
        outer = self

        class Handler(http.server.BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.1'

            def handle_one(self):
                length = int(self.headers.get('Content-Length') or 0)
                exchange = Exchange(self.command, self.path, self.headers, self.rfile.read(length))
                with outer.lock:
                    outer.exchanges.append(exchange)
                try:
                    status, headers, content = outer.answer(exchange)
                except BaseException as e:  # noqa: B902 Reported by the check.
                    outer.errors.append(e)
                    status, headers, content = 599, {}, b'error'
                self.send_response(status)
                for k, v in headers.items():
                    self.send_header(k, v)
                self.send_header('Content-Length', str(len(content)))
                self.send_header('Connection', 'close')
                self.end_headers()
                self.wfile.write(content)
                self.close_connection = True

            do_GET = do_POST = do_PUT = do_DELETE = do_HEAD = handle_one

            def log_message(self, *args):
                pass

        class Threading(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 128
            block_on_close = False

            def handle_error(self, request, client_address):
                pass

        self.lock = threading.Lock()
        self.reset()
        self.httpd = Threading(('127.0.0.1', 0), Handler)
        self.host = '127.0.0.1:%d' % self.httpd.server_address[1]
        threading.Thread(target=self.httpd.serve_forever, kwargs={'poll_interval': 0.05}, daemon=True).start()

    def reset(self):
        self.exchanges, self.errors = [], []
        self.answer = lambda exchange: (404, {}, b'')


def environ(exchange):
    """WSGI environ of an exchange."""
    path, _, query = exchange.path.partition('?')
    result = {
        'REQUEST_METHOD': exchange.method, 'PATH_INFO': path, 'QUERY_STRING': query, 'SERVER_NAME': '127.0.0.1', 'SERVER_PORT': '80',
        'SERVER_PROTOCOL': 'HTTP/1.1', 'CONTENT_LENGTH': str(len(exchange.content)), 'CONTENT_TYPE': exchange.headers.get('Content-Type', ''),
        'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http', 'wsgi.input': io.BytesIO(exchange.content), 'wsgi.errors': io.StringIO(),
        'wsgi.multithread': True, 'wsgi.multiprocess': False, 'wsgi.run_once': False,
    }
    for key, value in exchange.headers.items():
        key = key.upper().replace('-', '_')
        if key not in ('CONTENT_TYPE', 'CONTENT_LENGTH'):
            result['HTTP_' + key] = value
    return result


def serve_wsgi(app):
    """An answer function for a WSGI application."""
    def answer(exchange):
        seen = []
        data = b''.join(app(environ(exchange), lambda status, headers, exc_info=None: seen.append((status, headers))))
        status, headers = seen[0]
        return int(status[:3]), {k: v for k, v in headers if k.lower() != 'content-length'}, data
    return answer
