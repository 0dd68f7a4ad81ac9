"""C07 what counts as a successful HTTP exchange, C25 how requests are sent."""
import json
from urllib.parse import urlencode

import requests

from dv.api import contract

from contracts import tokens
from contracts.common import free_key, make_client, make_context, make_service

from oidcmsg.message import Message
from oidcmsg.oauth2 import AccessTokenResponse
from oidcmsg.oauth2 import ResponseMessage
from oidcrp.http import HTTPLib
from oidcrp.oauth2 import access_token as o2_at
from oidcrp.oidc import access_token as oidc_at
from oidcrp.oidc import check_session
from oidcrp.oidc import provider_info_discovery as oidc_pi
from oidcrp.oidc import refresh_access_token as oidc_rat
from oidcrp.oidc import userinfo
from oidcrp.provider import github

CL = 'oidcrp.oauth2.Client.'


class Response:
    """what the HTTP library hands back"""

    def __init__(self, status_code, headers, text, url='https://op.example.org/x'):
        self.status_code = status_code
        self.headers = headers
        self.text = text
        self.url = url

    def json(self):
        return json.loads(self.text)


class Http:
    """stands for the HTTP library; records what it is asked to send"""

    def __init__(self, response, fail=None):
        self.response = response
        self.fail = fail
        self.sent = []

    def __call__(self, url, method='GET', **kwargs):
        self.sent.append((url, method, kwargs))
        if self.fail is not None:
            raise self.fail
        return self.response


SERVICES = {'oauth2 token': (o2_at.AccessToken, 'token_response'),
            'oidc token': (oidc_at.AccessToken, 'token_response'),
            'oidc refresh': (oidc_rat.RefreshAccessToken, 'refresh_token_response')}


def world(S, kinds=('oauth2 token', 'oidc token', 'oidc refresh')):
    ctx = make_context(S, issuer='https://op', client_id='client')
    key = free_key(S, 'key')
    ctx.state.create_state('https://op', key)
    client = make_client(S, ctx)
    kind = S.choice('service', *kinds)
    srv = make_service(S, SERVICES[kind][0], client=client)
    return ctx, key, client, srv, SERVICES[kind][1]


def body_text(S, fmt, args):
    if fmt == 'json':
        return json.dumps(args)
    if fmt == 'urlencoded':
        return urlencode(args)
    return '<html>oops</html>'


CTYPES = {'json': 'application/json', 'json charset': 'application/json; charset=utf-8',
          'urlencoded': 'application/x-www-form-urlencoded', 'html': 'text/html', 'none': None}


def exchange(S, status_lo, status_hi, kinds=('oauth2 token', 'oidc token', 'oidc refresh'),
             fmts=('json', 'urlencoded', 'garbage'), ctypes=('json', 'urlencoded', 'html', 'none')):
    ctx, key, client, srv, item = world(S, kinds)
    status = S.int('status', status_lo, status_hi)
    fmt = S.choice('format', *fmts)
    args = S.record('args', {}, {'access_token': S.str('at', no=('=', '.', '?', '#', ';')), 'token_type': 'Bearer',
                                 'error': S.str('err', no=('=', '.', '?', '#', ';'))})
    tokens.install(S, [])
    text = body_text(S, fmt, args)
    ct = CTYPES[S.choice('content type', *ctypes)]
    headers = {'content-type': ct} if ct else {}
    resp = Response(status, headers, text)
    client.http = Http(resp)
    before = S.snapshot(ctx.state._db)
    out = S.call(client.service_request, srv, 'https://op/token', method='POST', body='x',
                 response_body_type='json', headers={}, state=key)
    return ctx, key, item, resp, fmt, args, out, before


@contract('C07', targets=[CL + 'service_request', CL + 'get_response', CL + 'parse_request_response',
                          'oidcrp.service.Service.parse_response', 'oidcrp.util.get_deserialization_method'])
def success(S):
    """2xx: stored exactly if the body is a proper response"""
    ctx, key, item, resp, fmt, args, out, before = exchange(S, 200, 299)
    good = fmt != 'garbage' and 'access_token' in args and 'token_type' in args and 'error' not in args
    stored = S.call(ctx.state.get_item, AccessTokenResponse, item, key)
    if stored.ok:
        S.check(good and out.ok, 'only a complete response is stored')
        S.check(stored.value['access_token'] == args['access_token'],
                'what is stored is what was received')
        S.check(out.value['access_token'] == args['access_token'], 'what is returned is what was received')
        S.check(200 <= resp.status_code and resp.status_code <= 206, 'only known success statuses count')
        S.cover('stored')
    else:
        S.check(not out.ok or 'error' in out.value, 'anything else is an exception or an error result')
        S.check(S.unchanged_except(before, ctx.state._db), 'nothing is stored of a refused response')
        S.cover('refused')
    if good and fmt == 'json' and resp.status_code <= 206 and resp.headers.get('content-type') == CTYPES['json']:
        S.check(out.ok and stored.ok, 'a proper JSON response is accepted')


@contract('C07', targets=[CL + 'service_request', CL + 'get_response', CL + 'parse_request_response'])
def client_error(S):
    """4xx: never stored, whatever the body looks like"""
    ctx, key, item, resp, fmt, args, out, before = exchange(S, 400, 499)
    S.check(S.unchanged_except(before, ctx.state._db), 'nothing of an error response is stored')
    if out.ok:
        S.check('error' in out.value, 'the caller gets an error result')
        S.check(out.value['status_code'] == resp.status_code, 'the result names the HTTP status')
        if 'error' in args and fmt == 'json' and resp.headers.get('content-type') == CTYPES['json']:
            S.check(out.value['error'] == args['error'], 'the error sent by the provider is reported')
            S.cover('reported')
    else:
        S.cover('exception')


@contract('C07', targets=[CL + 'service_request', CL + 'get_response', CL + 'parse_request_response'])
def redirect(S):
    """3xx"""
    ctx, key, item, resp, fmt, args, out, before = exchange(S, 300, 399, ('oidc token',), ('json',),
                                                           ('json', 'html'))
    S.check(S.unchanged_except(before, ctx.state._db), 'nothing of a redirect is stored')
    S.check(out.ok and out.value['http_response'] is resp, 'the redirect is handed back as such')
    S.cover('done')


@contract('C07', targets=[CL + 'service_request', CL + 'get_response', CL + 'parse_request_response'])
def server_error(S):
    """1xx, 5xx and beyond"""
    ctx, key, client, srv, item = world(S, ('oidc token',))
    status = S.int('status', 100, 999)
    S.assume(status < 200 or status >= 500)
    args = {'access_token': S.str('at'), 'token_type': 'Bearer'}
    client.http = Http(Response(status, {'content-type': 'application/json'}, json.dumps(args)))
    before = S.snapshot(ctx.state._db)
    out = S.call(client.service_request, srv, 'https://op/token', method='POST', body='x',
                 response_body_type='json', headers={}, state=key)
    S.check(not out.ok, 'an exception is raised')
    S.check(S.unchanged_except(before, ctx.state._db), 'nothing is stored')
    S.cover('done')


class Broken(Exception):
    pass


@contract('C07', targets=[CL + 'get_response', CL + 'service_request', CL + 'do_request'])
def no_connection(S):
    """the HTTP library raises"""
    ctx, key, client, srv, item = world(S, ('oidc token', 'oidc refresh'))
    ctx.provider_info = {'token_endpoint': 'https://op/token'}
    ctx.client_secret = 'secret'
    ctx.state.store_item(Message(redirect_uri='https://rp/cb', response_type='code'), 'auth_request', key)
    ctx.state.store_item(AccessTokenResponse(access_token='x', refresh_token='rt'), 'token_response', key)
    err = Broken('no route')
    client.http = Http(None, err)
    before = S.snapshot(ctx.state._db)
    out = S.call(client.do_request, srv.service_name, state=key, request_args={'code': 'c'},
                 authn_method='client_secret_basic')
    S.check(not out.ok and out.exc_obj is err, 'the failure reaches the caller')
    S.check(len(client.http.sent) == 1, 'the request is sent once')
    S.check(S.unchanged_except(before, ctx.state._db), 'nothing is stored')
    S.cover('done')


class Keys:
    """a key jar that remembers for whom keys were loaded"""

    def __init__(self):
        self.loaded = []

    def load_keys(self, issuer_id, jwks_uri='', jwks=None, replace=False):
        self.loaded.append(issuer_id)


@contract('C07', targets=[CL + 'service_request', CL + 'get_response', CL + 'parse_request_response',
                          'oidcrp.service.Service.parse_response'])
def not_what_was_expected(S):
    """success statuses with JSON that is no proper response of the expected kind"""
    ctx = make_context(S, issuer='https://op', client_id='client')
    key = free_key(S, 'key')
    ctx.state.create_state('https://op', key)
    client = make_client(S, ctx)
    kind = S.choice('service', 'user info', 'oauth2 token', 'oidc token', 'oidc refresh', 'metadata')
    tokens.install(S, [])
    text = S.str('text', nonempty=True)
    if kind == 'user info':
        srv = make_service(S, userinfo.UserInfo, client=client)
        args, bad = {'sub': 'diana', 'name': text}, [('name', None), ('shoe_size', None), ('sub', None),
                                                     ('email_verified', ['x']), ('name', ['a', 'b'])]
    elif kind == 'metadata':
        ctx.keyjar = Keys()
        srv = make_service(S, oidc_pi.ProviderInfoDiscovery, client=client)
        args = {'issuer': 'https://op', 'authorization_endpoint': 'https://op/a', 'jwks_uri': 'https://op/jwks',
                'token_endpoint': 'https://op/t', 'response_types_supported': ['code'],
                'subject_types_supported': ['public'], 'id_token_signing_alg_values_supported': ['RS256']}
        bad = [('issuer', 'http://op'), ('issuer', None), ('jwks_uri', None), ('response_types_supported', None),
               ('id_token_signing_alg_values_supported', ['ES256']), ('issuer', 'https://op#x')]
    else:
        srv = make_service(S, SERVICES[kind][0], client=client)
        args = {'access_token': text, 'token_type': 'Bearer'}
        bad = [('access_token', None), ('token_type', None), ('expires_in', 'soon'), ('expires_in', {}),
               ('access_token', ['a', 'b'])]
    which = S.choice('fault', 'none', '0', '1', '2', '3', '4')
    if which == 'none':
        pass
    else:
        name, value = bad[int(which)]
        if value is None and name in args and name != 'name' and S.flag('left out'):
            del args[name]
        else:
            args[name] = value
    client.http = Http(Response(200, {'content-type': 'application/json'}, json.dumps(args)))
    before = S.snapshot(ctx.state._db)
    out = S.call(client.service_request, srv, 'https://op/x', method='GET', body='',
                 response_body_type='json', headers={}, state=key)
    if which == 'none':
        S.check(out.ok and 'error' not in out.value, 'a proper response is accepted')
        S.cover('accepted')
    elif not out.ok:
        S.check(S.unchanged_except(before, ctx.state._db), 'nothing of a refused response is stored')
        S.check(kind != 'metadata' or (len(ctx.provider_info) == 0 and ctx.keyjar.loaded == []),
                'nothing of refused metadata is used')
        S.cover('refused')
    else:
        S.check('error' in out.value, 'a response that is not well-formed is refused')


@contract('C07', targets=['oidcrp.service.Service.parse_response', CL + 'service_request',
                          CL + 'get_response', CL + 'parse_request_response'])
def nothing_in_it(S):
    """success statuses with a document that says nothing, where no parameter is required"""
    ctx = make_context(S, issuer='https://op', client_id='client')
    key = free_key(S, 'key')
    ctx.state.create_state('https://op', key)
    client = make_client(S, ctx)
    kind = S.choice('service', 'github', 'session')
    srv = make_service(S, {'github': github.UserInfo, 'session': check_session.CheckSession}[kind], client=client)
    fmt = S.choice('fmt', 'json', 'urlencoded')
    args = S.record('args', {}, {'login': S.str('login', nonempty=True)})
    text = json.dumps(args) if fmt == 'json' else urlencode(args)
    status = S.int('status', 200, 206)
    before = S.snapshot(ctx.state._db)
    client.http = Http(Response(status, {'content-type': CTYPES[fmt]}, text))
    if S.flag('directly'):
        out = S.call(srv.parse_response, text, fmt, key)
    else:
        out = S.call(client.service_request, srv, 'https://op/x', method='GET', body='',
                     response_body_type=fmt, headers={}, state=key)
    if len(args) == 0:
        S.check(not out.ok or 'error' in out.value, 'an answer without any content is no response')
        S.check(S.unchanged_except(before, ctx.state._db), 'and leaves the session as it was')
        S.cover('refused')
    else:
        S.check(out.ok and out.value['login'] == args['login'], 'what the provider said is the response')
        S.check(S.unchanged_except(before, ctx.state._db, [key]), 'no other session changes')
        S.cover('accepted')


# ------------------------------------------------------------------ C25
@contract('C25', targets=[CL + 'do_request', CL + 'service_request', CL + 'get_response'])
def sent_as_built(S):
    """URL, method, body and headers reach the HTTP library as the service built them"""
    ctx, key, client, srv, item = world(S, ('oauth2 token', 'oidc token'))
    endpoint = S.str('endpoint')
    ctx.provider_info = {'token_endpoint': endpoint}
    ctx.client_secret = S.str('secret')
    ctx.state.store_item(Message(redirect_uri='https://rp/cb', response_type='code'), 'auth_request', key)
    client.http = Http(Response(200, {'content-type': 'application/json'},
                                json.dumps({'access_token': 'a', 'token_type': 'Bearer'})))
    built = []
    real = srv.get_request_parameters

    def recorder(**kwargs):
        r = real(**kwargs)
        built.append(r)
        return r
    srv.get_request_parameters = recorder
    out = S.call(client.do_request, 'accesstoken', state=key, request_args={'code': S.str('code')},
                 authn_method=S.choice('authn', 'client_secret_basic', 'client_secret_post'))
    S.check(out.ok and len(built) == 1 and len(client.http.sent) == 1, 'one request is built and sent')
    url, method, kw = client.http.sent[0]
    S.check(url == endpoint and method == 'POST', 'to the endpoint, with the method of the service')
    S.check(kw['data'] == built[0]['body'] and S.same(kw['headers'], built[0]['headers']),
            'with the body and headers that were built')
    S.check(kw['headers']['Content-Type'] == 'application/x-www-form-urlencoded', 'the body format is declared')
    S.cover('done')


class Requested:
    calls = []

    @staticmethod
    def request(method, url, **kwargs):
        Requested.calls.append((method, url, kwargs))
        return Response(200, {}, '')


@contract('C25', targets=['oidcrp.http.HTTPLib.__call__', 'oidcrp.http.HTTPLib.__init__', 'oidcrp.http.HTTPLib.send'])
def transport_settings(S):
    """the configured transport settings apply to every request and redirects are not followed"""
    S.patch(requests, 'request', Requested.request)
    Requested.calls = []
    params = S.choice('params', 'none', 'verify', 'cert')
    conf = None
    ca = S.str('ca')
    timeout = S.int('timeout', 1)
    if params == 'verify':
        conf = {'verify': ca}
    elif params == 'cert':
        conf = {'verify': S.bool('verify'), 'cert': ca, 'timeout': timeout}
    lib = HTTPLib(conf)
    S.obj(HTTPLib)
    lib2 = HTTPLib({'verify': False, 'timeout': 1})
    for n in ('1', '2'):
        url = S.str('url' + n)
        method = S.choice('method' + n, 'GET', 'POST')
        hdrs = {'Authorization': S.str('authz' + n)}
        body = S.str('body' + n)
        fn = lib.send if S.flag('send' + n) else lib
        out = S.call(fn, url, method, data=body, headers=hdrs)
        S.check(out.ok, 'the request is sent')
    lib2('https://other')
    S.check(len(Requested.calls) == 3, 'once each')
    for m, u, kw in Requested.calls[:2]:
        S.check(kw['allow_redirects'] is False, 'redirects are not followed')
        if params == 'none':
            S.check(kw.get('verify', True) is not False, 'TLS verification is on unless configured off')
        else:
            S.check(kw['verify'] == conf['verify'], 'the configured verification applies')
        if params == 'cert':
            S.check(kw['cert'] == ca and kw['timeout'] == timeout, 'the other settings apply')
        S.cover('sent')
    S.check(Requested.calls[1][0] == method and Requested.calls[1][1] == url and
            Requested.calls[1][2]['data'] == body and S.same(Requested.calls[1][2]['headers'], hdrs),
            'method, URL, body and headers are those of the request')
    S.check('headers' not in Requested.calls[2][2] and 'data' not in Requested.calls[2][2],
            'nothing of one request ends up in the next')
