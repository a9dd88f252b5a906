"""
The web service in a simulated process: its own server code, fed with
connections that are in memory.
"""
import io
import json
import runpy
import socket
import sys

from .. import conf, proc, vfs
from ..core import REPO

WSGI = REPO + '/web/wsgi.py'
SECRET = 'Xsecret42X'


def prepare():
    import wsgiref.handlers         # noqa
    import wsgiref.simple_server    # noqa
    import falcon                   # noqa
    proc.preload('asterisklint.func_odbc', 'asterisklint.dialplan')
    proc.preload_mods()


# -- requests ---------------------------------------------------------------

def check_request(text, **kwargs):
    return dict({'path': '/dialplan-check', 'method': 'POST',
                 'files': {'extensions.conf': text}}, **kwargs)


def body_of(spec):
    if 'files' in spec:
        return json.dumps({'files': spec['files']}).encode('ascii')
    return bytes.fromhex(spec.get('body', ''))


def raw_request(spec):
    if 'raw' in spec:
        return bytes.fromhex(spec['raw'])
    body = body_of(spec)
    lines = ['{} {} {}'.format(spec['method'], spec['path'],
                               spec.get('version', 'HTTP/1.1'))]
    headers = {'Host': 'localhost', 'Content-Type': 'application/json'}
    length = spec.get('length', 'auto')
    if length == 'auto':
        headers['Content-Length'] = str(len(body))
    elif length is not None:
        headers['Content-Length'] = str(length)
    headers.update(spec.get('headers', {}))
    lines += ['{}: {}'.format(k, v) for k, v in headers.items()]
    return '\r\n'.join(lines + ['', '']).encode('latin-1') + body


class Wire(io.RawIOBase):
    """The bytes that come in, until the connection fails."""
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, buf):
        return self.sock.recv_into(buf)


MAX_WAIT = 600


class Stalled(BaseException):
    pass


class FakeSocket:
    def __init__(self, data, net):
        kind, arg = net
        self.data, self.kind, self.arg = data, kind, arg
        self.taken = 0
        self.sends = 0
        self.sent = bytearray()
        self.fired = None
        self.limit = len(data)
        self.timeout = None
        self.waited = 0         # simulated seconds
        if kind in ('cut', 'reset', 'timeout', 'stall'):
            self.limit = arg * len(data) // 1000
        self.chunk = arg if kind == 'chunks' else 1 << 20

    def makefile(self, mode='r', buffering=None, **kwargs):
        if 'r' in mode:
            return io.BufferedReader(Wire(self))
        return socket.SocketIO(self, 'w')

    def recv_into(self, buf, nbytes=0, flags=0):
        n = min(len(buf), self.chunk, self.limit - self.taken)
        if n <= 0 and self.kind == 'reset':
            self.fired = 'reset'
            raise ConnectionResetError(104, 'Connection reset by peer')
        if n <= 0 and self.kind == 'timeout':
            self.fired = 'timeout'
            raise socket.timeout('timed out')
        if n <= 0 and self.kind == 'stall':
            self.wait()
        if n <= 0:
            if self.kind == 'cut':
                self.fired = 'cut'
            return 0
        if self.kind == 'chunks':
            self.fired = 'chunks'
        buf[:n] = self.data[self.taken:self.taken + n]
        self.taken += n
        return n

    def wait(self):
        """The other side does nothing anymore, and stays."""
        self.fired = self.kind
        if self.timeout is None or self.waited > MAX_WAIT:
            raise Stalled('waiting for a client that is silent {}'.format(
                'without end' if self.timeout is None else
                'for {} s by now'.format(self.waited)))
        self.waited += self.timeout
        if not self.timeout:
            raise BlockingIOError(11, 'Resource temporarily unavailable')
        raise socket.timeout('timed out')

    def recv(self, size, flags=0):
        buf = bytearray(size)
        return bytes(buf[:self.recv_into(buf)])

    def sendall(self, data, flags=0):
        self.sends += 1
        if self.kind == 'nosend' and self.sends >= self.arg:
            self.fired = 'nosend'
            raise BrokenPipeError(32, 'Broken pipe')
        if self.kind == 'stallsend' and self.sends >= self.arg:
            self.wait()
        self.sent += data

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def settimeout(self, value):
        self.timeout = value

    def gettimeout(self):
        return self.timeout

    def setblocking(self, value):
        self.timeout = None if value else 0

    def setsockopt(self, *args):
        pass

    def shutdown(self, how):
        pass

    def close(self):
        pass

    def fileno(self):
        return -1


def parse_response(data):
    """(status line, sorted headers but for the date, body as text)"""
    head, _, body = bytes(data).partition(b'\r\n\r\n')
    lines = head.decode('latin-1').split('\r\n')
    headers = sorted(i for i in lines[1:] if not i.lower().startswith(
        ('date:', 'server:')))
    return [lines[0], headers, body.decode('utf-8', 'backslashreplace')]


class Input(io.BytesIO):
    def __init__(self, data):
        super().__init__(data)
        self.taken = 0

    def read(self, *args):
        ret = super().read(*args)
        self.taken += len(ret)
        return ret


def direct(app, spec):
    """Call the application as another server would."""
    body = body_of(spec)
    stream = Input(body)
    path, _, query = spec['path'].partition('?')
    env = {'REQUEST_METHOD': spec['method'], 'PATH_INFO': path,
           'QUERY_STRING': query, 'SCRIPT_NAME': '', 'SERVER_NAME': 'x',
           'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
           'CONTENT_TYPE': 'application/json', 'REMOTE_ADDR': '10.0.0.1',
           'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http',
           'wsgi.input': stream, 'wsgi.errors': sys.stderr,
           'wsgi.multithread': bool(spec.get('multithread')),
           'wsgi.multiprocess': bool(spec.get('multiprocess')),
           'wsgi.run_once': False}
    length = spec.get('length', 'auto')
    if length is not None:
        env['CONTENT_LENGTH'] = str(len(body) if length == 'auto' else length)
    got = []

    def start_response(status, headers, exc_info=None):
        got[:] = [status, headers]
        return None

    try:
        result = app(env, start_response)
        data = b''.join(result)
        if hasattr(result, 'close'):
            result.close()
        return ['HTTP/1.0 ' + got[0], sorted(
            '{}: {}'.format(*i) for i in got[1]),
            data.decode('utf-8', 'backslashreplace')], stream.taken
    except Exception as exc:
        return ['HTTP/1.0 500 Internal', [], type(exc).__name__], (
            stream.taken)


def driver(history, collect=None):
    def entry():
        import wsgiref.simple_server as simple
        fs = vfs.current
        results = []

        def serve(srv):
            for spec in history:
                start = len(fs.log)
                if collect:
                    collect()
                taken, fired = None, None
                fail = spec.get('internal')
                if fail:
                    def hook(path, names):
                        raise OSError(fail, 'injected', path)
                    vfs.real_listdir_hook[0] = hook
                died = None
                sock = None
                try:
                    if spec.get('direct'):
                        answer, taken = direct(srv.get_app(), spec)
                    else:
                        sock = FakeSocket(raw_request(spec),
                                          spec.get('net', ['ok', 0]))
                        address = ('10.0.0.1', 1234)
                        try:
                            if srv.verify_request(sock, address):
                                srv.process_request(sock, address)
                        except Exception:
                            srv.handle_error(sock, address)
                            srv.shutdown_request(sock)
                        answer = parse_response(sock.sent)
                        taken, fired = sock.taken, sock.fired
                except BaseException as exc:
                    died = '{}: {}'.format(type(exc).__name__, exc)
                    answer = None
                vfs.real_listdir_hook[0] = None
                results.append({
                    'answer': answer, 'died': died, 'taken': taken,
                    'fired': fired, 'waited': sock and sock.waited,
                    'audit': collect and collect(), 'ops': [
                        [i[1], i[2]] for i in fs.log[start:]
                        if i[1] != 'out']})
                if died:
                    break

        def make_server(host, port, app, server_class=simple.WSGIServer,
                        handler_class=simple.WSGIRequestHandler):
            class Server(server_class):
                def __init__(self):
                    self.server_name, self.server_port = host, port
                    self.server_address = (host, port)
                    self.RequestHandlerClass = handler_class
                    self.setup_environ()
                    self.set_app(app)

                def serve_forever(self, poll_interval=.5):
                    serve(self)

                def handle_request(self):
                    serve(self)

                def server_close(self):
                    pass

                def shutdown(self):
                    pass

            return Server()

        orig = simple.make_server
        simple.make_server = make_server
        try:
            runpy.run_path(WSGI, run_name='__main__')
        finally:
            simple.make_server = orig
        return results
    return entry


def run(out, history, collect=None):
    fs = vfs.FS()
    for path in ('/home/user', '/work', '/etc/asterisk'):
        fs.mkdirs(path)
    secret = '[{0}]\nexten => {0},1,{0}()\n'.format(SECRET).encode()
    for path in ('/etc/passwd', '/etc/asterisk/extensions.conf',
                 '/etc/asterisk/func_odbc.conf', '/work/extensions.conf',
                 '/work/func_odbc.conf', '/work/secret.conf',
                 '/home/user/secret.conf'):
        fs.put(path, secret)
    fs.mkdirs('/proc/self')
    fs.put('/proc/self/environ', secret)
    fs.cwd = '/work'
    fs.seal()
    res = proc.run(out, fs, driver(history, collect), [WSGI])
    if res is None:
        return None
    out.note(res.extra, res.error)
    for result in res.extra or ():
        if result['fired']:
            out.fault('connection_' + result['fired'])
        if result.get('waited'):
            out.probe('simulated seconds', int(result['waited']))
    for spec in history:
        if spec.get('internal'):
            out.fault('directory unreadable')
    if res.error or len(res.extra or ()) != len(history):
        last = (res.extra or [{}])[-1]
        out.violate('died', 'the server ended: {} {}'.format(
            res.error or last.get('died'), res.site or ''))
        out.trace.append(res.trace or res.err[-2000:])
        return None
    return res


# -- what to ask ------------------------------------------------------------

BAD_BODIES = [
    b'', b'{', b'[]', b'null', b'1', b'"x"', b'{}', b'{"files": null}',
    b'{"files": []}', b'{"files": {}}', b'{"files": "extensions.conf"}',
    b'{"files": {"extensions.conf": null}}',
    b'{"files": {"extensions.conf": 1}}',
    b'{"files": {"extensions.conf": ["x"]}}',
    b'{"files": {"extensions.conf": "\\ud800"}}',
    b'{"files": {"func_odbc.conf": "[x]"}}',
    b'{"files": {"/etc/passwd": "[x]"}}', b'\xff\xfe', b'{"files": {"exte',
    b'[' * 2000, b'\x00' * 100, b'{"files": {"extensions.conf": "a"}} x']


PIECES = ['  ', ' \t', '\t', '=', '= ', '=>', '[', '[]', '(', '()', '${', '$',
          '${a}', '${a(', '$[', '}', ',', '\\', '\\;', ';', '"', '?', ':',
          '1?a:', '&', 'SIP/a&', '|', '9', '-', '~', '@', '_', 'X.', '[0-9]',
          '.', '!', 'a ', 'n+', '#', '/', '\0', '\r', '\u00e9', '\U0001f600',
          'ExecIf(1?', 'Goto(', 'NoOp()', '1+', '\n', '[a]\n', ' \n',
          'same => n,NoOp()\n', 'include => a\n']
AROUND = [['', ''], ['', 'x'], ['a', 'b=c'], ['exten => s,1,NoOp(', ')'],
          ['exten => s,1,', ''], ['exten => _', ',1,NoOp()'], ['exten => ', ''],
          ['exten => s,n(', '),NoOp()'], ['same => n,Goto(', ',1)'],
          ['exten => s,1,Set(', '=1)'], ['exten => s,1,Set(x=${', '})'],
          ['exten => s,1,ExecIf(', ')'], ['include => ', ''], ['[', ']'],
          ['#exec ', ''], ['switch => ', ''], ['exten => s,1,Dial(', ')'],
          ['exten => s,1,GotoIf($[', ']?1:2)'], ['x=', ';y'], ['#', 'x']]


def monster(rng):
    """A very long line (or very many)."""
    piece = ''.join(rng.choice(PIECES) for _ in range(rng.choice([1, 1, 2])))
    begin, end = rng.choice(AROUND)
    n = rng.choice([200, 4000, 60000, 60000]) // len(
        json.dumps(piece)[1:-1])
    return '{}{}{}{}\nsame => n,Hangup()\n'.format(
        rng.choice(['', '[general]\n[globals]\n[a]\n']),
        begin, piece * n, end)


def any_text(rng):
    r = rng.random()
    if r < .03:
        return monster(rng)
    if r < .2:
        return rng.choice(['', '\n', '[a]\n', 'x', '\0', '[general',
                           '[general]\n[globals]\n', '\r\n\r\n', ';',
                           '[a]\nexten => 1,1,NoOp\n', '\ufeff[a]\n'])
    if r < .6:
        lines = conf.dialplan(rng, rng.choice([0, .2, .6]))
    else:
        lines = conf.rich_dialplan(rng)
    lines = [i for i in lines if '#include' not in i[1] and
             '#tryinclude' not in i[1]]
    files = conf.spread(rng, lines, 'extensions.conf', nfiles=1)
    data = conf.Built(files).data[0]
    return data.decode('utf-8', 'replace')


def any_request(rng):
    r = rng.random()
    if r < .5:
        spec = check_request(any_text(rng))
        if rng.random() < .1:
            spec['files']['other.conf'] = '[x]\n'
    elif r < .7:
        spec = {'path': '/dialplan-check', 'method': 'POST',
                'body': rng.choice(BAD_BODIES).hex()}
    elif r < .9:
        spec = {'path': rng.choice([
            '/', '/healthz', '/healthz/', '/nosuch', '/dialplan-check',
            '/static/x', '//', '/../etc/passwd', '/healthz?x=1', '/%2e%2e/',
            '*', 'x']), 'method': rng.choice(
                ['GET', 'GET', 'GET', 'HEAD', 'PUT', 'OPTIONS', 'DELETE'])}
    else:
        spec = {'path': '/', 'method': 'GET', 'raw': rng.choice([
            b'', b'\r\n', b'GET', b'GET /\r\n\r\n', b'\xff\xfe\r\n\r\n',
            b'GET / HTTP/9.9\r\n\r\n', b'GET  / HTTP/1.1\r\n\r\n',
            b'GET / HTTP/1.1\r\n' + b'A: b\r\n' * 200 + b'\r\n',
            b'GET /' + b'a' * 70000 + b' HTTP/1.1\r\n\r\n',
            b'GET / HTTP/1.1\r\nX: ' + b'b' * 70000 + b'\r\n\r\n',
            b'POST /dialplan-check HTTP/1.1\r\nTransfer-Encoding: chunked\r\n'
            b'\r\n5\r\n{"fil\r\n0\r\n\r\n']).hex()}
    if 'raw' not in spec:
        if rng.random() < .1:
            spec['length'] = rng.choice(
                [None, -1, 0, 'x', 3, 100000, 10 ** 12, ''])
        if rng.random() < .1:
            spec['headers'] = {'Content-Type': rng.choice(
                ['text/plain', 'application/json; charset=utf-8',
                 'application/x-www-form-urlencoded', ''])}
        if rng.random() < .1:
            spec['version'] = rng.choice(['HTTP/1.0', 'HTTP/0.9'])
    if 'raw' not in spec and rng.random() < .2:
        spec['direct'] = True
        spec['multiprocess'] = rng.random() < .3
    else:
        spec['net'] = rng.choice([['ok', 0]] * 4 + [
            ['chunks', 1], ['chunks', 50], ['cut', 0],
            ['cut', rng.randrange(1000)], ['reset', rng.randrange(1000)],
            ['timeout', rng.randrange(1000)], ['nosend', 1], ['nosend', 2],
            ['nosend', 3], ['stall', 0], ['stall', rng.randrange(1000)],
            ['stallsend', 1], ['stallsend', 2]])
    return spec
