"""
Stand-in for falcon 2: the parts that web/wsgi.py uses, with the behaviour of
the real one (routing, errors, media, hooks, middleware).
"""
import json

HTTP_200 = '200 OK'


class HTTPError(Exception):
    def __init__(self, status, title=None, description=None, headers=None,
                 **kwargs):
        self.status = status
        self.title = title or status
        self.description = description
        self.headers = headers

    def to_dict(self, obj_type=dict):
        ret = obj_type()
        ret['title'] = self.title
        if self.description is not None:
            ret['description'] = self.description
        return ret


def _error(status):
    def __init__(self, title=None, description=None, headers=None, **kwargs):
        HTTPError.__init__(self, status, title, description, headers,
                           **kwargs)
    return __init__


class HTTPBadRequest(HTTPError):
    __init__ = _error('400 Bad Request')


class HTTPInvalidHeader(HTTPBadRequest):
    def __init__(self, msg, header_name, **kwargs):
        super().__init__('Invalid header value', 'The value provided for the '
                         '{0} header is invalid. {1}'.format(
                             header_name, msg), **kwargs)


class HTTPUnauthorized(HTTPError):
    __init__ = _error('401 Unauthorized')


class HTTPForbidden(HTTPError):
    __init__ = _error('403 Forbidden')


class HTTPNotFound(HTTPError):
    __init__ = _error('404 Not Found')


class HTTPMethodNotAllowed(HTTPError):
    def __init__(self, allowed_methods, **kwargs):
        super().__init__('405 Method Not Allowed',
                         headers={'Allow': ', '.join(allowed_methods)})


class HTTPConflict(HTTPError):
    __init__ = _error('409 Conflict')


class HTTPLengthRequired(HTTPError):
    __init__ = _error('411 Length Required')


class HTTPPayloadTooLarge(HTTPError):
    __init__ = _error('413 Payload Too Large')


HTTPRequestEntityTooLarge = HTTPPayloadTooLarge


class HTTPUnsupportedMediaType(HTTPError):
    def __init__(self, description=None, **kwargs):
        super().__init__('415 Unsupported Media Type',
                         'Unsupported media type', description)


class HTTPUnprocessableEntity(HTTPError):
    __init__ = _error('422 Unprocessable Entity')


class HTTPInternalServerError(HTTPError):
    __init__ = _error('500 Internal Server Error')


class HTTPNotImplemented(HTTPError):
    __init__ = _error('501 Not Implemented')


class HTTPServiceUnavailable(HTTPError):
    __init__ = _error('503 Service Unavailable')


def before(action, *args, **kwargs):
    def decorate(func):
        def wrapped(self, req, resp, **params):
            action(req, resp, self, params, *args, **kwargs)
            return func(self, req, resp, **params)
        return wrapped
    return decorate


class BoundedStream:
    def __init__(self, stream, length):
        self.stream, self.remaining = stream, length

    def read(self, size=-1):
        if size is None or size < 0 or size > self.remaining:
            size = self.remaining
        self.remaining -= size
        return self.stream.read(size)

    def exhaust(self, chunk_size=64 * 1024):
        while self.read(chunk_size):
            pass


class RequestOptions:
    strip_url_path_trailing_slash = False


class Request:
    def __init__(self, env, options):
        self.env = env
        self.options = options
        self.method = env['REQUEST_METHOD']
        path = env['PATH_INFO'] or '/'
        # PEP 3333
        path = path.encode('latin1').decode('utf-8', 'replace')
        if (options.strip_url_path_trailing_slash and len(path) != 1 and
                path.endswith('/')):
            path = path[:-1]
        self.path = path
        self._media = None

    @property
    def content_type(self):
        return self.env.get('CONTENT_TYPE')

    @property
    def content_length(self):
        value = self.env.get('CONTENT_LENGTH')
        if not value:
            return None
        try:
            value = int(value)
        except ValueError:
            raise HTTPInvalidHeader('The value of the header must be a '
                                    'number.', 'Content-Length')
        if value < 0:
            raise HTTPInvalidHeader('The value of the header must be a '
                                    'positive number.', 'Content-Length')
        return value

    @property
    def stream(self):
        return self.env['wsgi.input']

    @property
    def bounded_stream(self):
        return BoundedStream(self.stream, self.content_length or 0)

    def get_header(self, name, default=None):
        return self.env.get('HTTP_' + name.upper().replace('-', '_'), default)

    @property
    def media(self):
        if self._media is not None:
            return self._media
        type_ = (self.content_type or 'application/json').split(
            ';')[0].strip().lower()
        if type_ not in ('application/json', '*/*', ''):
            raise HTTPUnsupportedMediaType('{} is an unsupported media '
                                           'type.'.format(self.content_type))
        stream = self.bounded_stream
        try:
            try:
                self._media = json.loads(stream.read().decode('utf-8'))
            except ValueError as err:
                raise HTTPBadRequest(
                    'Invalid JSON', 'Could not parse JSON body - {}'.format(
                        err))
        finally:
            stream.exhaust()
        return self._media


class Response:
    def __init__(self):
        self.status = HTTP_200
        self.content_type = None
        self.body = None
        self.data = None
        self.media = None
        self.headers = {}

    def set_header(self, name, value):
        self.headers[name.lower()] = value

    append_header = set_header


METHODS = ('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS',
           'CONNECT', 'TRACE')


class API:
    def __init__(self, middleware=None, **kwargs):
        if middleware is None:
            middleware = []
        elif not isinstance(middleware, (list, tuple)):
            middleware = [middleware]
        self._middleware = list(middleware)
        self._routes = {}
        self._handlers = []
        self.req_options = RequestOptions()

    def add_route(self, uri_template, resource, **kwargs):
        self._routes[uri_template] = resource

    def add_error_handler(self, exception, handler=None):
        self._handlers.insert(0, (exception, handler))

    def __call__(self, env, start_response):
        req, resp = Request(env, self.req_options), Response()
        resource, ok = None, False
        done = []
        try:
            for component in self._middleware:
                if hasattr(component, 'process_request'):
                    component.process_request(req, resp)
                done.append(component)
            resource = self._routes.get(req.path)
            if resource is None:
                raise HTTPNotFound()
            for component in self._middleware:
                if hasattr(component, 'process_resource'):
                    component.process_resource(req, resp, resource, {})
            responder = getattr(resource, 'on_' + req.method.lower(), None)
            if responder is None:
                allowed = [i for i in METHODS
                           if hasattr(resource, 'on_' + i.lower())]
                if req.method == 'OPTIONS':
                    resp.set_header('allow', ', '.join(allowed))
                    resp.body = ''
                elif req.method not in METHODS:
                    raise HTTPBadRequest()
                else:
                    raise HTTPMethodNotAllowed(allowed)
            else:
                responder(req, resp)
            ok = True
        except Exception as exc:
            self._handle(req, resp, exc)
        finally:
            for component in reversed(done):
                if hasattr(component, 'process_response'):
                    component.process_response(req, resp, resource, ok)
        body = b''
        if resp.body is not None:
            body = resp.body
            if isinstance(body, str):
                body = body.encode('utf-8')
        elif resp.data is not None:
            body = resp.data
        elif resp.media is not None:
            body = json.dumps(resp.media, ensure_ascii=False).encode('utf-8')
            resp.content_type = resp.content_type or (
                'application/json; charset=UTF-8')
        headers = dict(resp.headers)
        headers['content-type'] = resp.content_type or (
            'application/json; charset=UTF-8')
        headers['content-length'] = str(len(body))
        start_response(resp.status, sorted(headers.items()))
        return [] if req.method == 'HEAD' else [body]

    def _handle(self, req, resp, exc):
        for class_, handler in self._handlers:
            if isinstance(exc, class_):
                (handler or class_.handle)(exc, req, resp, {})
                return
        if not isinstance(exc, HTTPError):
            raise exc
        resp.status = exc.status
        resp.media = None
        resp.data = None
        resp.content_type = 'application/json; charset=UTF-8'
        for name, value in (exc.headers or {}).items():
            resp.set_header(name, value)
        resp.body = json.dumps(exc.to_dict(), sort_keys=True)


App = API
