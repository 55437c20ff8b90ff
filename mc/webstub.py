"""
A stand-in for falcon (which is not installed): the routing, the hooks, the
errors, and the request and response objects.
"""
import importlib.util
import io
import json
import os
import sys
import types

from . import core

STATUSES = {
    'BadRequest': '400', 'InvalidHeader': '400', 'InvalidParam': '400',
    'MissingParam': '400', 'MissingHeader': '400', 'Unauthorized': '401',
    'Forbidden': '403', 'NotFound': '404', 'RouteNotFound': '404',
    'MethodNotAllowed': '405', 'NotAcceptable': '406', 'Conflict': '409',
    'Gone': '410', 'LengthRequired': '411', 'PreconditionFailed': '412',
    'PayloadTooLarge': '413', 'ContentTooLarge': '413',
    'RequestEntityTooLarge': '413', 'UriTooLong': '414',
    'UnsupportedMediaType': '415', 'UnprocessableEntity': '422',
    'TooManyRequests': '429', 'InternalServerError': '500',
    'NotImplemented': '501', 'BadGateway': '502',
    'ServiceUnavailable': '503',
}


class HTTPError(Exception):
    def __init__(self, status, *args, **kwargs):
        super().__init__(*args)
        self.status = str(status)


def error_class(name):
    status = STATUSES.get(name[4:], '400')

    def init(self, *args, **kwargs):
        HTTPError.__init__(self, status, *args)
    return type(name, (HTTPError,), {'__init__': init})


def attribute(name, made={}):
    """Whatever else there may be in falcon."""
    if name.startswith('__'):
        raise AttributeError(name)
    if name not in made:
        if name.startswith('HTTP_'):
            made[name] = name[5:]
        elif name.startswith('HTTP'):
            made[name] = error_class(name)
        elif name.startswith('MEDIA_'):
            made[name] = name[6:].lower()
        else:
            return name
    return made[name]


def before(hook, *args, **kwargs):
    def decorator(fn):
        def wrapper(self, req, resp, **params):
            hook(req, resp, self, params, *args, **kwargs)
            return fn(self, req, resp, **params)
        return wrapper
    return decorator


class Request(object):
    """
    A request. There are length bytes of body (or so it says).
    """
    def __init__(self, body, length=-1, multithread=False):
        if isinstance(body, str):
            body = body.encode('utf-8')
        self.body = body
        self.content_length = len(body) if length == -1 else length
        self.env = {'wsgi.multithread': multithread,
                    'wsgi.multiprocess': False, 'REMOTE_ADDR': '127.0.0.1',
                    'CONTENT_TYPE': 'application/json',
                    'wsgi.input': io.BytesIO(body)}
        if self.content_length is not None:
            self.env['CONTENT_LENGTH'] = str(self.content_length)
        self.content_type = 'application/json; charset=utf-8'
        self.remote_addr = '127.0.0.1'
        self.stream = self.bounded_stream = self.env['wsgi.input']
        self.context = types.SimpleNamespace()
        self.reads = 0

    @property
    def headers(self):
        ret = {'CONTENT-TYPE': self.content_type}
        if self.content_length is not None:
            ret['CONTENT-LENGTH'] = str(self.content_length)
        return ret

    def get_header(self, name, required=False, default=None):
        return self.headers.get(name.upper(), default)

    def get_media(self):
        return self.media

    @property
    def media(self):
        self.reads += 1
        try:
            return json.loads(self.body)
        except ValueError:
            raise attribute('HTTPBadRequest')('Invalid JSON')


class API(object):
    def __init__(self, *args, middleware=(), **kwargs):
        self.middleware = (
            middleware if isinstance(middleware, (list, tuple))
            else [middleware])
        self.routes = {}
        self.req_options = types.SimpleNamespace()
        self.resp_options = types.SimpleNamespace()

    def add_middleware(self, middleware):
        self.middleware = list(self.middleware) + (
            list(middleware) if isinstance(middleware, (list, tuple))
            else [middleware])

    def add_route(self, path, resource, **kwargs):
        self.routes[path] = resource

    def request(self, method, path, req):
        """Returns (status, text or media)."""
        req.method, req.path = method, path
        resp = types.SimpleNamespace(
            status='200 OK', body=None, media=None, content_type=None,
            text=None, data=None, headers={},
            context=types.SimpleNamespace())
        resp.set_header = resp.headers.__setitem__
        resource = None
        try:
            for m in self.middleware:
                if hasattr(m, 'process_request'):
                    m.process_request(req, resp)
            if getattr(self.req_options, 'strip_url_path_trailing_slash',
                       False) and len(path) > 1:
                path = path[:-1] if path.endswith('/') else path
            if path not in self.routes:
                raise HTTPError('404')
            resource = self.routes[path]
            responder = getattr(resource, 'on_' + method.lower(), None)
            if responder is None:
                raise HTTPError('405')
            for m in self.middleware:
                if hasattr(m, 'process_resource'):
                    m.process_resource(req, resp, resource, {})
            responder(req, resp)
            status = str(resp.status)
            if resp.media is not None:
                ret = status, json.loads(json.dumps(resp.media))
            else:
                ret = status, resp.body or resp.text or resp.data or ''
        except HTTPError as e:
            ret = e.status, ''
        except Exception as e:
            ret = '500 ' + type(e).__name__, ''
        for m in self.middleware:
            if hasattr(m, 'process_response'):
                m.process_response(
                    req, resp, resource, not ret[0].startswith('5'))
        return ret


def load_web():
    falcon = types.ModuleType('falcon')
    falcon.API = falcon.App = API
    falcon.before = before
    falcon.HTTPError = HTTPError
    falcon.Request, falcon.Response = Request, types.SimpleNamespace
    falcon.HTTP_501 = '501 Not Implemented'
    falcon.__getattr__ = attribute
    sys.modules['falcon'] = falcon
    for name in ('falcon.http_error', 'falcon.errors', 'falcon.status_codes',
                 'falcon.hooks'):
        mod = types.ModuleType(name)
        mod.__getattr__ = attribute
        mod.HTTPError = HTTPError
        mod.before = before
        sys.modules[name] = mod
        setattr(falcon, name.split('.')[1], mod)
    path = os.path.join(core.REPO, 'web', 'wsgi.py')
    spec = importlib.util.spec_from_file_location('alint_web', path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module.application
