"""C08 placement of client credentials, C09 client assertions."""
import base64
import json
from urllib.parse import parse_qs
from urllib.parse import quote_plus

from dv.api import contract

from contracts import tokens
from contracts.common import free_key, make_client, make_context, make_service

from oidcmsg.message import Message
from oidcmsg.oauth2 import AccessTokenResponse
from oidcrp.client_auth import AuthnFailure
from oidcrp.client_auth import ClientSecretBasic
from oidcrp.client_auth import ClientSecretJWT
from oidcrp.client_auth import ClientSecretPost
from oidcrp.client_auth import PrivateKeyJWT
from oidcrp.client_auth import factory
from oidcrp.oauth2 import access_token as o2_at
from oidcrp.oauth2.client_credentials import cc_access_token
from oidcrp.oidc import access_token as oidc_at
from oidcrp.oidc import refresh_access_token as oidc_rat
from oidcrp.oidc.userinfo import UserInfo

CA = 'oidcrp.client_auth.'

SERVICES = {'oauth2 token': o2_at.AccessToken, 'oidc token': oidc_at.AccessToken,
            'oidc refresh': oidc_rat.RefreshAccessToken, 'cc token': cc_access_token.CCAccessToken}


def world(S, kinds=('oauth2 token', 'oidc token', 'oidc refresh', 'cc token')):
    ctx = make_context(S, issuer='https://op', client_id=S.str('client_id'), client_secret=S.str('secret'))
    ctx.provider_info = {'token_endpoint': 'https://op/token', 'issuer': 'https://op'}
    key = free_key(S, 'key')
    ctx.state.create_state('https://op', key)
    ctx.state.store_item(Message(redirect_uri='https://rp/cb', response_type='code', client_id=ctx.client_id,
                                 state=key), 'auth_request', key)
    ctx.state.store_item(Message(code=S.str('code')), 'auth_response', key)
    ctx.state.store_item(AccessTokenResponse(access_token='at', refresh_token=S.str('rt')), 'token_response', key)
    kind = S.choice('service', *kinds)
    srv = make_service(S, SERVICES[kind], client=make_client(S, ctx))
    return ctx, key, kind, srv


def plain_request(S, srv, key, args):
    """the request before any client authentication"""
    r = S.call(srv.construct, dict(args), state=key)
    S.check(r.ok, 'the request can be constructed')
    return r.value.to_dict()


def basic_value(user, password):
    return 'Basic ' + base64.b64encode((quote_plus(user) + ':' + quote_plus(password)).encode('utf-8')).decode('utf-8')


def others_untouched(S, req, plain, special=('client_id', 'client_secret', 'client_assertion',
                                            'client_assertion_type', 'access_token')):
    for k in plain:
        if k not in special:
            S.check(k in req and S.same(req[k], plain[k]), 'the other parameters are left alone')
    for k in req.keys():
        if k not in special:
            S.check(k in plain, 'no other parameter is added')


@contract('C08', targets=[CA + 'ClientSecretBasic.construct', CA + 'ClientSecretBasic._get_authentication_token',
                          CA + 'ClientSecretBasic.modify_request', 'oidcrp.service.Service.get_headers',
                          'oidcrp.service.Service.get_request_parameters',
                          'oidcrp.service.Service.init_authentication_method', CA + 'factory'])
def basic(S):
    """client_secret_basic"""
    ctx, key, kind, srv = world(S)
    user, pwd = S.str('user'), S.str('password')
    extra = S.choice('credentials', 'context', 'call', 'password in call')
    kw = {}
    if extra == 'call':
        kw = {'user': user, 'password': pwd}
    elif extra == 'password in call':
        kw = {'password': pwd}
    plain = plain_request(S, srv, key, {})
    out = S.call(srv.get_request_parameters, authn_method='client_secret_basic', state=key, **kw)
    S.check(out.ok, 'the request is made')
    if out.ok:
        u = user if extra == 'call' else ctx.client_id
        p = ctx.client_secret if extra == 'context' else pwd
        S.check(out.value['headers']['Authorization'] == basic_value(u, p),
                'the header has the form-encoded id and secret of this client')
        body = parse_qs(out.value['body'])
        S.check('client_secret' not in body and 'password' not in body, 'the secret is not in the body')
        if 'client_id' in body:
            S.check(body['client_id'] == [ctx.client_id], 'a client id in the body is that of the client')
        others_untouched(S, out.value['request'], plain)
        S.cover('sent')


@contract('C08', targets=[CA + 'ClientSecretBasic._get_passwd', CA + 'ClientSecretBasic.construct'])
def basic_request_secret(S):
    """a secret given as request parameter moves to the header"""
    ctx, key, kind, srv = world(S, ('oauth2 token', 'oidc refresh'))
    mine = S.str('own_secret')
    hdrs = {'X-Other': S.str('other_header')}
    req = srv.construct({'client_secret': mine}, state=key)
    plain = plain_request(S, srv, key, {})
    args = S.choice('http_args', 'none', 'empty', 'headers')
    http_args = {'headers': dict(hdrs)} if args == 'headers' else ({} if args == 'empty' else None)
    out = S.call(ClientSecretBasic().construct, req, srv, http_args=http_args)
    S.check(out.ok, 'the request is made')
    if out.ok:
        S.check(out.value['headers']['Authorization'] == basic_value(ctx.client_id, mine), 'the given secret is used')
        if args == 'headers':
            S.check(out.value['headers']['X-Other'] == hdrs['X-Other'], 'other headers are kept')
        S.check('client_secret' not in req, 'the secret is not in the body')
        others_untouched(S, req, plain)
        S.cover('sent')


@contract('C08', targets=[CA + 'ClientSecretPost.construct', CA + 'ClientSecretPost.modify_request',
                          'oidcrp.service.Service.get_request_parameters'])
def post(S):
    """client_secret_post"""
    ctx, key, kind, srv = world(S)
    where = S.choice('credentials', 'context', 'call', 'request', 'nowhere')
    mine = S.str('own_secret')
    plain = plain_request(S, srv, key, {})
    kw, args = {}, {}
    if where == 'call':
        kw = {'client_secret': mine}
        ctx.client_secret = ''
    elif where == 'request':
        args = {'client_secret': mine}
    elif where == 'nowhere':
        ctx.client_secret = ''
    if S.flag('another identifier'):
        args['client_id'] = 'somebody-else'
    out = S.call(srv.get_request_parameters, request_args=args, authn_method='client_secret_post', state=key, **kw)
    if where == 'nowhere':
        S.check(not out.ok and issubclass(out.exc, AuthnFailure), 'without a secret there is no request')
        S.cover('refused')
    else:
        S.check(out.ok, 'the request is made')
    if out.ok:
        body = parse_qs(out.value['body'])
        want = mine if where in ('call', 'request') else ctx.client_secret
        S.check(body.get('client_secret') == [want], 'the secret is in the body')
        S.check(body.get('client_id') == [ctx.client_id], 'the client id is in the body')
        S.check('Authorization' not in out.value.get('headers', {}), 'and not in a header')
        others_untouched(S, out.value['request'], plain)
        S.cover('sent')


@contract('C08', targets=[CA + 'BearerHeader.construct', CA + 'BearerBody.construct', CA + 'find_token'])
def bearer(S):
    """the bearer methods"""
    ctx, key, kind, srv0 = world(S, ('oidc token',))
    ctx.provider_info['userinfo_endpoint'] = 'https://op/userinfo'
    srv = make_service(S, UserInfo, client=make_client(S, ctx))
    at = S.str('access_token')
    where = S.choice('token', 'session', 'call', 'nowhere')
    ctx.state.store_item(AccessTokenResponse(access_token=at), 'token_response', key)
    S.assume(key != 'empty')
    ctx.state.create_state('https://op', 'empty')
    in_body = S.flag('in_body')
    kw = {'access_token': S.str('own_token')} if where == 'call' else {}
    request = Message(claims='c', purpose=S.str('purpose'))
    more = S.flag('headers')
    http_args = {'headers': {'X-Other': 'x'}} if more else {}
    meth = factory('bearer_body' if in_body else 'bearer_header')
    out = S.call(meth.construct, request, srv, http_args=http_args, key='empty' if where == 'nowhere' else key, **kw)
    if where == 'nowhere':
        S.check(not out.ok, 'without a token there is no request')
        S.cover('refused')
        return
    S.check(out.ok, 'the request is made')
    if out.ok:
        want = kw['access_token'] if where == 'call' else at
        hdrs = out.value.get('headers', {})
        if in_body:
            S.check(request['access_token'] == want and 'Authorization' not in hdrs, 'the token is in the body only')
        else:
            S.check(hdrs['Authorization'] == 'Bearer ' + want and 'access_token' not in request,
                    'the token is in the header only')
        if more:
            S.check(hdrs['X-Other'] == 'x', 'other headers are kept')
        others_untouched(S, request, {'claims': 'c', 'purpose': request['purpose']})
        S.cover('sent')


@contract('C08', targets=['oidcrp.oidc.access_token.AccessToken.get_authn_method',
                          'oidcrp.service.Service.get_headers', 'oidcrp.service.Service.get_request_parameters'])
def chosen_method(S):
    """without a method in the call, the one agreed with the provider is used"""
    ctx, key, kind, srv = world(S, ('oidc token',))
    tokens.install_signer(S)
    ctx.keyjar = tokens.KeyRing([tokens.Key('RSA', '', 'r'), tokens.Key('oct', '', 'o')])
    m = S.choice('method', 'none registered', 'client_secret_basic', 'client_secret_post', 'private_key_jwt',
                 'client_secret_jwt')
    if m != 'none registered':
        ctx.behaviour = {'token_endpoint_auth_method': m}
    if m.endswith('_jwt'):
        ctx.registration_response = {'token_endpoint_auth_signing_alg': 'RS384' if m == 'private_key_jwt' else 'HS512'}
    out = S.call(srv.get_request_parameters, state=key)
    S.check(out.ok, 'the request is made')
    if out.ok:
        body = parse_qs(out.value['body'])
        auth = out.value['headers'].get('Authorization', '')
        S.check((auth != '') == (m in ('none registered', 'client_secret_basic')), 'header exactly for basic')
        S.check(('client_secret' in body) == (m == 'client_secret_post'), 'secret in body exactly for post')
        S.check(('client_assertion' in body) == (m.endswith('_jwt')), 'assertion exactly for the signed methods')
        if 'client_assertion' in body:
            S.check(tokens.signed(body['client_assertion'][0])['alg'] ==
                    ctx.registration_response['token_endpoint_auth_signing_alg'], 'signed as registered')
        S.cover('sent')


# ------------------------------------------------------------------ C09
KTY = {'HS256': 'oct', 'HS512': 'oct', 'RS256': 'RSA', 'RS384': 'RSA', 'PS256': 'RSA', 'ES256': 'EC'}


def ring(S, owner='https://op'):
    own = []
    for kty in ('RSA', 'oct', 'EC'):
        if S.flag('own_' + kty):
            own.append(tokens.Key(kty, '', kty + '-kid'))
    foreign = [tokens.Key(kty, owner, kty + '-kid') for kty in ('RSA', 'oct', 'EC')]
    return tokens.KeyRing(foreign + own)


def check_assertion(S, token, ctx, alg, audience, lifetime):
    t = tokens.signed(token)
    S.check(t is not None, 'the assertion is signed')
    if t is None:
        return None
    S.check(t['alg'] == alg and alg != 'none', 'with the expected algorithm')
    S.check(t['key'] is not None and t['key'].owner == '' and t['key'].kty == KTY[alg],
            'with a key of this client that fits the algorithm')
    claims = json.loads(t['payload'])
    S.check(claims['iss'] == ctx.client_id and claims['sub'] == ctx.client_id, 'issuer and subject are this client')
    S.check(claims['aud'] == [audience] or claims['aud'] == audience, 'the audience is the server it is sent to')
    S.check(claims['iat'] == S.now() and claims['exp'] == S.now() + lifetime, 'it is issued now and expires in time')
    S.check(S.is_random(claims['jti']), 'its identifier is random')
    return claims


def authn_class(S):
    return S.choice('method', ('client_secret_jwt', ClientSecretJWT, 'HS256'), ('private_key_jwt', PrivateKeyJWT, 'RS256'))


@contract('C09', targets=[CA + 'JWSAuthnMethod.construct', CA + 'JWSAuthnMethod.modify_request',
                          CA + 'JWSAuthnMethod._construct_client_assertion',
                          CA + 'JWSAuthnMethod._get_audience_and_algorithm',
                          CA + 'JWSAuthnMethod._get_signing_key', CA + 'assertion_jwt'])
def assertion(S):
    """what the assertion says, for every source of the algorithm"""
    name, cls, default = authn_class(S)
    tokens.install_signer(S)
    ctx = make_context(S, issuer='https://op', client_id=S.str('client_id'), client_secret=S.str('secret'))
    ctx.keyjar = ring(S)
    te, iss = S.str('token_endpoint'), S.str('iss')
    ctx.provider_info = {'token_endpoint': te, 'issuer': iss}
    srv = make_service(S, oidc_at.AccessToken, client=make_client(S, ctx))
    kw, alg, aud = {}, default, te
    src = S.choice('algorithm', 'registered', 'registered without', 'preferred', 'asked', 'default', 'none')
    if src in ('asked', 'default', 'none'):
        aud = iss
        if S.flag('other_endpoint'):
            kw['authn_endpoint'] = 'userinfo_endpoint'
    else:
        kw['authn_endpoint'] = 'token_endpoint'
    a = S.choice('alg', 'RS384', 'HS512', 'ES256') if src in ('registered', 'preferred', 'asked') else default
    if src == 'registered':
        ctx.registration_response = {'token_endpoint_auth_signing_alg': a, 'client_id': 'x'}
    elif src == 'registered without':
        ctx.registration_response = {'client_id': 'x'}
    elif src == 'preferred':
        ctx.client_preferences = {'token_endpoint_auth_signing_alg': a}
    elif src == 'asked':
        kw['algorithm'] = a
    elif src == 'none':
        kw['algorithm'] = 'none'
    alg = a
    lifetime = 600
    if S.flag('lifetime'):
        lifetime = S.int('seconds', 1, 100000)
        kw['lifetime'] = lifetime
    request = Message(grant_type='authorization_code', code=S.str('code'), client_secret='s')
    request.c_param = {'client_id': (str, False, None, None, False)}
    out = S.call(cls().construct, request, srv, http_args={}, **kw)
    have = any(k.owner == '' and k.kty == KTY[alg] for k in ctx.keyjar.keys)
    if src == 'none' or not have:
        S.check(not out.ok and 'client_assertion' not in request, 'without a fitting key there is no request')
        S.cover('refused')
        return
    S.check(out.ok, 'an assertion is made')
    if out.ok:
        S.check(request['client_assertion_type'] == 'urn:ietf:params:oauth:client-assertion-type:jwt-bearer',
                'its type is in the request')
        check_assertion(S, request['client_assertion'], ctx, alg, aud, lifetime)
        S.check('client_secret' not in request, 'the secret is not sent')
        S.check(request['grant_type'] == 'authorization_code', 'the rest of the request is left alone')
        S.cover('made')


@contract('C09', targets=[CA + 'JWSAuthnMethod._get_audience_and_algorithm',
                          CA + 'JWSAuthnMethod.get_signing_key_from_keyjar'])
def provider_algorithms(S):
    """nothing registered or preferred: an algorithm the provider supports and there is a key for"""
    name, cls, default = authn_class(S)
    tokens.install_signer(S)
    ctx = make_context(S, issuer='https://op', client_id=S.str('client_id'))
    ctx.keyjar = ring(S)
    supported = S.choice('supported', None, ['ES256', 'RS256'], ['HS256', 'RS384'], ['XY1', 'RS384'], ['XY1'])
    ctx.provider_info = {'token_endpoint': S.str('te'), 'issuer': 'https://op'}
    if supported is not None:
        ctx.provider_info['token_endpoint_auth_signing_alg_values_supported'] = supported
    srv = make_service(S, oidc_at.AccessToken, client=make_client(S, ctx))
    request = Message(grant_type='authorization_code')
    request.c_param = {'client_id': (str, False, None, None, False)}
    out = S.call(cls().construct, request, srv, authn_endpoint='token_endpoint')
    if out.ok:
        t = tokens.signed(request['client_assertion'])
        S.check(t is not None, 'the assertion is signed')
        if t is not None:
            first = [x for x in (supported or []) if x in KTY and
                     any(k.owner == '' and k.kty == KTY[x] for k in ctx.keyjar.keys)]
            if first:
                S.check(t['alg'] == first[0], 'the first supported algorithm there is a key for')
            check_assertion(S, request['client_assertion'], ctx, t['alg'], ctx.provider_info['token_endpoint'], 600)
            S.cover('made')
    else:
        S.check('client_assertion' not in request, 'no request')
        S.cover('refused')


@contract('C09', targets=[CA + 'JWSAuthnMethod._get_signing_key', CA + 'JWSAuthnMethod._get_key_by_kid'])
def chosen_key(S):
    """a key chosen by its identifier, in the call or in the context"""
    name, cls, default = authn_class(S)
    tokens.install_signer(S)
    ctx = make_context(S, issuer='https://op', client_id=S.str('client_id'))
    kid = S.str('kid')
    k1, k2 = S.str('kid1'), S.str('kid2')
    S.assume(k1 != k2)
    own = [tokens.Key(KTY[default], '', k1), tokens.Key(KTY[default], '', k2), tokens.Key('EC', '', 'ec')]
    ctx.keyjar = tokens.KeyRing([tokens.Key(KTY[default], 'https://op', kid)] + own)
    ctx.provider_info = {'issuer': 'https://op'}
    kw = {}
    if S.flag('in_call'):
        kw = {'kid': kid}
    else:
        ctx.kid = {'sig': {KTY[default]: kid}, 'enc': {}}
    srv = make_service(S, oidc_at.AccessToken, client=make_client(S, ctx))
    request = Message(grant_type='authorization_code')
    request.c_param = {'client_id': (str, False, None, None, False)}
    out = S.call(cls().construct, request, srv, **kw)
    if kid == k1 or kid == k2:
        S.check(out.ok, 'an assertion is made')
        if out.ok:
            t = tokens.signed(request['client_assertion'])
            S.check(t is not None and t['key'].kid == kid and t['key'].owner == '', 'with exactly the chosen key')
            S.cover('made')
    else:
        S.check(not out.ok and 'client_assertion' not in request, 'an unknown key is an error')
        S.cover('refused')


@contract('C09', targets=[CA + 'JWSAuthnMethod.modify_request', 'oidcrp.service.Service.get_request_parameters'])
def in_request(S):
    """the whole request, for every service that can be authenticated to; two assertions differ"""
    ctx, key, kind, srv = world(S)
    tokens.install_signer(S)
    ctx.keyjar = tokens.KeyRing([tokens.Key('RSA', '', 'r'), tokens.Key('oct', '', 'o')])
    plain = plain_request(S, srv, key, {})
    name = S.choice('method', 'private_key_jwt', 'client_secret_jwt')
    given = S.choice('assertion', 'made', 'call', 'call with type')
    kw = {}
    if given != 'made':
        kw['client_assertion'] = S.str('own_assertion')
    if given == 'call with type':
        kw['client_assertion_type'] = 'urn:ietf:params:oauth:client-assertion-type:jwt-bearer'
    out = S.call(srv.get_request_parameters, authn_method=name, state=key, **kw)
    S.check(out.ok, 'the request is made')
    if out.ok:
        body = parse_qs(out.value['body'])
        S.check(body['client_assertion_type'] == ['urn:ietf:params:oauth:client-assertion-type:jwt-bearer'],
                'the assertion type is in the body')
        S.check('Authorization' not in out.value.get('headers', {}), 'there is no Authorization header')
        S.check('client_secret' not in body, 'the secret is not sent')
        others_untouched(S, out.value['request'], plain)
        if given == 'made':
            S.check(tokens.signed(body['client_assertion'][0]) is not None, 'the assertion is in the body')
            alg = 'RS256'
            if name == 'client_secret_jwt':
                alg = S.choice('registered algorithm', 'HS256', 'HS512')
                ctx.registration_response = {'token_endpoint_auth_signing_alg': alg}
                out = S.call(srv.get_request_parameters, authn_method=name, state=key)
                body = parse_qs(out.value['body'])
            c1 = check_assertion(S, body['client_assertion'][0], ctx, alg, 'https://op/token', 600)
            S.later(S.int('pause', 0, 10 ** 6))
            again = S.call(srv.get_request_parameters, authn_method=name, state=key)
            S.check(again.ok, 'another request is made')
            second = parse_qs(again.value['body'])['client_assertion'][0]
            c2 = check_assertion(S, second, ctx, alg, 'https://op/token', 600)
            S.check(c1['jti'] != c2['jti'], 'two assertions have different identifiers')
        else:
            S.check(body['client_assertion'] == [kw['client_assertion']], 'the given assertion is in the body')
        S.cover('sent')
