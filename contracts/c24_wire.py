"""C24 what is put on the wire decodes to the request that was built."""
import json
from urllib.parse import parse_qs
from urllib.parse import urlsplit

from dv.api import contract

from contracts.common import free_key, make_client, make_context, make_service

from oidcmsg.exception import MissingRequiredAttribute
from oidcmsg.message import Message
from oidcmsg.oauth2 import AccessTokenRequest
from oidcmsg.oauth2 import AccessTokenResponse
from oidcmsg.oauth2 import AuthorizationRequest
from oidcmsg.oidc import RegistrationRequest
from oidcrp import util
from oidcrp.oauth2 import access_token as o2_at
from oidcrp.oauth2 import authorization as o2_authz
from oidcrp.oauth2 import refresh_access_token as o2_rat
from oidcrp.oauth2.client_credentials import cc_access_token
from oidcrp.oidc import access_token as oidc_at
from oidcrp.oidc import authorization as oidc_authz
from oidcrp.oidc import end_session
from oidcrp.oidc import refresh_access_token as oidc_rat
from oidcrp.oidc import registration
from oidcrp.oidc import userinfo

UT = 'oidcrp.util.'
SV = 'oidcrp.service.Service.'
JOINED = ('scope', 'response_type', 'prompt', 'ui_locales', 'claims_locales', 'acr_values')


def wire(name, value):
    """how a parameter looks in a decoded query"""
    if isinstance(value, list):
        return [' '.join(value)] if name in JOINED else list(value)
    if isinstance(value, str):
        return [value]
    return [str(value)]


def decodes(S, text, params, own):
    """text: a query or form body"""
    q = parse_qs(text, keep_blank_values=True)
    for k in params:
        if k in ('claims', 'registration') and not isinstance(params[k], str):
            v = params[k].to_dict() if isinstance(params[k], Message) else params[k]
            S.check(k in q and len(q[k]) == 1 and json.loads(q[k][0]) == v, 'a structured parameter is sent as JSON')
        else:
            S.check(k in q and q[k] == wire(k, params[k]), 'every parameter arrives once, with its value')
    for k in own:
        S.check(k in q and q[k] == own[k], 'the query of the endpoint is kept')
    S.check(len(q) == len(params) + len(own), 'nothing else is sent')


OWN = ({}, {'own': ['1']}, {'own': ['a b&=#', 'c']}, {'own': ['']}, {'a': ['x'], 'b': ['']})
OWN_TEXT = ('', '?own=1', '?own=a+b%26%3D%23&own=c', '?own=', '?a=x&b=')


def params_of(S):
    p = {'text': S.str('text')}
    if S.flag('list'):
        p['list'] = [S.str('item'), S.str('item')]
    if S.flag('number'):
        p['number'] = S.int('number')
    return p


@contract('C24', targets=[UT + 'get_http_url'])
def url(S):
    """get_http_url for every method, endpoint and request"""
    method = S.choice('method', 'GET', 'DELETE', 'POST', 'PUT')
    i = S.choice('own_query', 0, 1, 2, 3, 4)
    base = 'https://' + S.str('host', no=('/', '?', '#', '@', '[', ']', '\t', '\r', '\n')) + S.choice('path', '/authz', '/a//b/', '/')
    fragment = S.choice('fragment', '', '#frag')
    endpoint = base + OWN_TEXT[i] + fragment
    cls = S.choice('class', Message, AuthorizationRequest)
    params = {}
    if cls is AuthorizationRequest:
        params = {'client_id': S.str('client_id'), 'response_type': ['code', 'id_token']}
        if S.flag('scope'):
            params['scope'] = ['openid', S.choice('scope', 'a/b', 'é&=')]
    elif S.flag('any'):
        params = params_of(S)
    req = cls(**params)
    before = S.snapshot(req)
    out = S.call(util.get_http_url, endpoint, req, method)
    S.check(out.ok, 'there is a URL')
    S.check(S.same(req, before), 'the request is not changed')
    if method in ('POST', 'PUT') or not params:
        S.check(out.value == endpoint, 'the endpoint is used as it is')
        S.cover('as it is')
        return
    u = urlsplit(out.value)
    S.check(u.scheme + '://' + u.netloc + u.path == base, 'the request goes to the endpoint')
    S.check('#' + u.fragment == fragment or u.fragment == fragment, 'the fragment is kept')
    decodes(S, u.query, params, OWN[i])
    S.cover('query')


@contract('C24', targets=[UT + 'get_http_url'])
def own_query_yields(S):
    """an endpoint whose query names a parameter of the request"""
    state = S.str('state')
    req = AuthorizationRequest(client_id='c', response_type=['code'], state=state)
    own = S.choice('own', 'state=x', 'client_id=evil&state=', 'tenant=7&state=x&state=y', 'tenant=7&response_type=token')
    out = S.call(util.get_http_url, 'https://op/authz?' + own, req, 'GET')
    S.check(out.ok, 'there is a URL')
    decodes(S, urlsplit(out.value).query, {'client_id': 'c', 'response_type': ['code'], 'state': state},
            {'tenant': ['7']} if own.startswith('tenant') else {})
    S.cover('query')


@contract('C24', targets=[UT + 'get_http_body'])
def body(S):
    """get_http_body for every content type"""
    ct = S.choice('content type', util.URL_ENCODED, util.JSON_ENCODED, util.JOSE_ENCODED, 'text/plain',
                  util.URL_ENCODED + '; charset=utf-8', util.JSON_ENCODED + ';charset=utf-8')
    params = params_of(S)
    req = Message(**params)
    before = S.snapshot(req)
    out = S.call(util.get_http_body, req, ct)
    S.check(S.same(req, before), 'the request is not changed')
    if ct == 'text/plain':
        S.check(not out.ok, 'an unknown content type is an error')
        S.cover('refused')
        return
    S.check(out.ok, 'there is a body')
    if util.URL_ENCODED in ct:
        decodes(S, out.value, params, {})
        S.cover('urlencoded')
    elif util.JSON_ENCODED in ct:
        S.check(json.loads(out.value) == params, 'the JSON body says what the request says')
        S.cover('json')
    else:
        S.check(out.value is req, 'a signed request is sent as it is')
        S.cover('jose')


EP = 'https://op/ep'


def sent(S, info, asked):
    """the request made is exactly what goes out, and holds what was asked for"""
    req = info['request']
    items = {}
    for k in req.keys():
        items[k] = req[k]
    for k in asked:
        S.check(k in items and wire(k, items[k]) == wire(k, asked[k]), 'the request holds what the caller asked for')
    if info['method'] == 'GET':
        u = urlsplit(info['url'])
        S.check(u.scheme + '://' + u.netloc + u.path == EP, 'the request goes to the endpoint')
        S.check('body' not in info and 'Content-Type' not in info.get('headers', {}), 'a GET request has no body')
        decodes(S, u.query, items, {})
        S.cover('query')
        return
    S.check(info['method'] == 'POST' and info['url'] == EP, 'a POST request goes to the endpoint as it is')
    ct = info['headers']['Content-Type']
    if ct == util.URL_ENCODED:
        decodes(S, info['body'], items, {})
        S.cover('form')
    elif ct == util.JSON_ENCODED:
        got = json.loads(info['body'])
        S.check(got == req.to_dict(), 'the JSON body says what the request says')
        S.cover('json')
    else:
        S.check(False, 'the content type is one of those known')


def context(S):
    ctx = make_context(S, issuer='https://op', client_id=S.str('client_id'), client_secret=S.str('secret'))
    ctx.redirect_uris = [S.str('redirect_uri')]
    ctx.behaviour = {'response_types': ['code'], 'scope': ['openid', 'a&b']}
    ctx.provider_info = {'issuer': 'https://op', 'authorization_endpoint': EP, 'token_endpoint': EP,
                         'registration_endpoint': EP, 'end_session_endpoint': EP, 'userinfo_endpoint': EP}
    return ctx


def method_args(S, srv):
    """the defaults of the service, or another method or body type"""
    kw = {}
    m = S.choice('method', '', 'GET', 'POST json', 'POST urlencoded')
    if m == 'GET':
        kw['method'] = 'GET'
    elif m:
        kw['method'] = 'POST'
        kw['request_body_type'] = m.split(' ')[1]
    return kw


@contract('C24', targets=[SV + 'get_request_parameters', SV + 'construct', SV + 'gather_request_args',
                          UT + 'get_http_url', UT + 'get_http_body',
                          'oidcrp.oauth2.authorization.Authorization.gather_request_args',
                          'oidcrp.oidc.authorization.Authorization.oidc_pre_construct',
                          'oidcrp.oidc.authorization.Authorization.oidc_post_construct'])
def authorization(S):
    """the authorization request, with any extra arguments"""
    ctx = context(S)
    flavour = S.choice('flavour', 'oidc', 'oauth2')
    cls = oidc_authz.Authorization if flavour == 'oidc' else o2_authz.Authorization
    srv = make_service(S, cls, ctx)
    asked = {'state': free_key(S, 'state'), 'response_type': ['code']}
    extra = S.choice('extra', 'none', 'string', 'list', 'number', 'claims', 'registration')
    if extra == 'string':
        asked[S.choice('name', 'login_hint', 'a&b')] = S.str('value')
    elif extra == 'list' and flavour == 'oauth2':
        asked['resource'] = ['https://a/?b=c', 'https://d']
    elif extra == 'list':
        asked['prompt'] = ['login', 'consent']
        asked['ui_locales'] = ['sv', 'é']
    elif extra == 'number' and flavour == 'oidc':
        asked['max_age'] = S.int('max_age', 0)
    elif extra == 'claims' and flavour == 'oidc':
        asked['claims'] = {'id_token': {'email': {'essential': True}, 'x': {'values': ['a&b', 'é']}}}
    elif extra == 'registration' and flavour == 'oidc':
        asked['registration'] = {'client_name': 'a&b=c', 'redirect_uris': ['https://a', 'https://b']}
    plain = dict(asked)
    kw = method_args(S, srv)
    out = S.call(srv.get_request_parameters, request_args=dict(asked), **kw)
    S.check(out.ok, 'the request is made')
    for k in ('claims', 'registration'):
        if k in asked:
            del asked[k]
            got = out.value['request'][k]
            S.check((got.to_dict() if isinstance(got, Message) else got) == plain[k],
                    'the request holds the structured parameter asked for')
    asked['client_id'] = ctx.client_id
    asked['redirect_uri'] = ctx.redirect_uris[0]
    asked['scope'] = ['openid', 'a&b']
    sent(S, out.value, asked)


@contract('C24', targets=[SV + 'get_request_parameters', SV + 'construct', SV + 'get_headers',
                          'oidcrp.oauth2.access_token.AccessToken.oauth_pre_construct',
                          'oidcrp.oauth2.refresh_access_token.RefreshAccessToken.oauth_pre_construct'])
def token(S):
    """token requests: each grant, authenticated in the header or in the body"""
    ctx = context(S)
    key = free_key(S, 'key')
    ctx.state.create_state('https://op', key)
    ctx.state.store_item(Message(redirect_uri=S.str('used_uri'), response_type='code', client_id=ctx.client_id,
                                 state=key), 'auth_request', key)
    ctx.state.store_item(Message(code=S.str('code')), 'auth_response', key)
    ctx.state.store_item(AccessTokenResponse(access_token='at', refresh_token=S.str('refresh')), 'token_response', key)
    cls = S.choice('service', o2_at.AccessToken, oidc_at.AccessToken, o2_rat.RefreshAccessToken,
                   oidc_rat.RefreshAccessToken, cc_access_token.CCAccessToken)
    srv = make_service(S, cls, ctx)
    asked = {}
    extra = S.choice('extra', 'none', 'string', 'scope', 'list')
    if extra == 'string':
        asked[S.choice('name', 'extra', 'a&b')] = S.str('value')
    elif extra == 'scope' and srv.service_name != 'accesstoken' or cls is cc_access_token.CCAccessToken:
        asked['scope'] = ['openid', 'a&b']
    elif extra == 'list':
        asked['resource'] = ['https://a/?b=c', 'https://d']
    given = dict(asked)
    kw = {'authn_method': S.choice('authn', 'client_secret_basic', 'client_secret_post')}
    if S.flag('json'):
        kw['request_body_type'] = 'json'
    out = S.call(srv.get_request_parameters, request_args=asked, state=key, **kw)
    S.check(out.ok, 'the request is made')
    S.check(srv.http_method == 'POST' and out.value['method'] == 'POST', 'token requests are POSTed')
    S.check((out.value['headers']['Content-Type'] == util.JSON_ENCODED) == ('request_body_type' in kw),
            'form encoded unless JSON is asked for')
    sent(S, out.value, given)


@contract('C24', targets=[SV + 'get_request_parameters', SV + 'construct',
                          'oidcrp.oidc.registration.Registration.gather_request_args'])
def register(S):
    """a registration request is JSON"""
    ctx = context(S)
    srv = make_service(S, registration.Registration, ctx)
    asked = {'redirect_uris': [S.str('uri'), S.str('uri')], 'client_name': S.str('client_name')}
    if S.flag('more'):
        asked['require_auth_time'] = S.flag('auth_time')
        asked['default_max_age'] = S.int('age', 0)
        asked['jwks'] = {'keys': [{'kty': 'RSA', 'e': 'AQAB', 'n': S.str('modulus')}]}
        asked['contacts'] = ['é&=@x']
    given = dict(asked)
    out = S.call(srv.get_request_parameters, request_args=asked)
    S.check(out.ok, 'the request is made')
    info = out.value
    S.check(info['method'] == 'POST' and info['headers']['Content-Type'] == util.JSON_ENCODED,
            'a registration request is POSTed as JSON')
    got = json.loads(info['body'])
    for k in given:
        S.check(k in got and got[k] == given[k], 'the metadata asked for is sent as it is')
    sent(S, info, {})


@contract('C24', targets=[SV + 'get_request_parameters', SV + 'construct',
                          'oidcrp.oidc.end_session.EndSession.get_id_token_hint',
                          'oidcrp.oidc.end_session.EndSession.add_post_logout_redirect_uri',
                          'oidcrp.oidc.end_session.EndSession.add_state'])
def logout(S):
    """the logout request"""
    ctx = context(S)
    key = free_key(S, 'key')
    ctx.state.create_state('https://op', key)
    asked = {}
    if S.flag('hint'):
        hint = S.str('id_token')
        ctx.state.store_item(Message(id_token=hint), 'token_response', key)
        asked['id_token_hint'] = hint
    given = {}
    if S.flag('uri'):
        given['post_logout_redirect_uri'] = S.str('out')
    if S.flag('state'):
        given['state'] = S.str('logout_state')
    asked.update(given)
    srv = make_service(S, end_session.EndSession, ctx)
    kw = method_args(S, srv)
    out = S.call(srv.get_request_parameters, request_args=given, state=key, **kw)
    S.check(out.ok, 'the request is made')
    sent(S, out.value, asked)


@contract('C24', targets=[SV + 'get_request_parameters', SV + 'get_headers',
                          'oidcrp.oidc.userinfo.UserInfo.oidc_pre_construct'])
def user_info(S):
    """the userinfo request"""
    ctx = context(S)
    key = free_key(S, 'key')
    ctx.state.create_state('https://op', key)
    token = S.str('token')
    ctx.state.store_item(AccessTokenResponse(access_token=token, token_type='Bearer'), 'token_response', key)
    srv = make_service(S, userinfo.UserInfo, ctx)
    kw = method_args(S, srv)
    out = S.call(srv.get_request_parameters, state=key, **kw)
    S.check(out.ok, 'the request is made')
    if out.value['method'] == 'GET' and not out.value['request'].keys():
        S.check(out.value['url'] == EP and 'body' not in out.value, 'an empty request is the endpoint')
        S.cover('empty')
        return
    sent(S, out.value, {})


@contract('C24', targets=[SV + 'get_request_parameters', UT + 'get_http_url', UT + 'get_http_body'])
def required(S):
    """a form or query request that lacks a required parameter is not made"""
    ctx = context(S)
    lack = S.choice('lack', 'redirect_uri', 'client_id', 'code', 'refresh_token', 'nothing')
    key = free_key(S, 'key')
    ctx.state.create_state('https://op', key)
    if lack == 'redirect_uri':
        ctx.redirect_uris = []
    elif lack == 'client_id':
        ctx.client_id = ''
    kw = {}
    if lack in ('redirect_uri', 'client_id', 'nothing'):
        srv = make_service(S, oidc_authz.Authorization, ctx)
        kw['method'] = S.choice('method', 'GET', 'POST')
        args = {'state': key, 'response_type': ['code']}
    elif lack == 'code':
        ctx.state.store_item(Message(redirect_uri=S.str('used_uri'), state=key), 'auth_request', key)
        ctx.state.store_item(Message(error='x'), 'auth_response', key)
        srv = make_service(S, S.choice('service', o2_at.AccessToken, oidc_at.AccessToken), ctx)
        args = {}
    else:
        ctx.state.store_item(AccessTokenResponse(access_token='at'), 'token_response', key)
        srv = make_service(S, S.choice('service', o2_rat.RefreshAccessToken, oidc_rat.RefreshAccessToken), ctx)
        args = {}
    out = S.call(srv.get_request_parameters, request_args=args, state=key, **kw)
    if lack == 'nothing':
        S.check(out.ok, 'a complete request is made')
        S.cover('complete')
        return
    S.check(not out.ok, 'a request that lacks a required parameter is an error')
    S.cover('refused')


@contract('C24', targets=[SV + 'get_request_parameters', UT + 'get_http_body'])
def declared(S):
    """the content type declared is that of the body, whatever the caller put into the headers"""
    ctx = context(S)
    key = free_key(S, 'key')
    ctx.state.create_state('https://op', key)
    ctx.state.store_item(Message(redirect_uri='https://rp/cb', state=key), 'auth_request', key)
    ctx.state.store_item(Message(code='c', state=key), 'auth_response', key)
    srv = make_service(S, S.choice('service', o2_at.AccessToken, oidc_at.AccessToken), ctx)
    kind = S.choice('body', 'urlencoded', 'json', 'jws', 'jwe', 'jose')
    kw = {'request_body_type': kind}
    headers = S.choice('headers', None, {}, {'X-Trace': 'me'}, {'Content-Type': 'text/plain'})
    if headers is not None:
        kw['http_args'] = {'headers': dict(headers)}
    out = S.call(srv.get_request_parameters, state=key, authn_method='client_secret_basic', **kw)
    S.check(out.ok, 'the request is made')
    info = out.value
    want = {'urlencoded': util.URL_ENCODED, 'json': util.JSON_ENCODED}.get(kind, util.JOSE_ENCODED)
    S.check(info['headers']['Content-Type'] == want, 'the content type is that of the body')
    if headers is not None and 'X-Trace' in headers:
        S.check(info['headers']['X-Trace'] == 'me', 'headers of the caller are kept')
    if want == util.JOSE_ENCODED:
        S.check(info['body'] is info['request'], 'a signed request is sent as it is')
        S.cover('jose')
    else:
        sent(S, info, {})
        S.cover('text')
