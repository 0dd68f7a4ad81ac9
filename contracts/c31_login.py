"""C31 what finalizing a login reports; operations of a handler that are told the state only (C26, C08)."""
import base64
import json
from urllib.parse import parse_qs
from urllib.parse import quote_plus
from urllib.parse import urlencode
from urllib.parse import urlsplit

import oidcmsg.oidc

from dv.api import contract

from contracts.common import make_client, make_context, make_handler, make_service
from contracts.tokens import FakeKeyJar, install

from oidcmsg.message import Message
from oidcmsg.oidc import OpenIDSchema
from oidcrp.oidc.access_token import AccessToken
from oidcrp.oidc.authorization import Authorization
from oidcrp.oidc.refresh_access_token import RefreshAccessToken
from oidcrp.oidc.userinfo import UserInfo

RH = 'oidcrp.rp_handler.RPHandler.'
SRV = 'oidcrp.service.Service.'
OP = 'https://op'
TYPES = ('code', 'id_token', 'token', 'none', 'code id_token', 'id_token token', 'code token', 'code id_token token')


class Response:
    def __init__(self, status, text, url):
        self.status_code = status
        self.headers = {'content-type': 'application/json'}
        self.text = text
        self.url = url

    def json(self):
        return json.loads(self.text)


class Provider:
    """answers at the token and the user info endpoint"""

    def __init__(self, base, token, info):
        self.answers = {base + '/token': token, base + '/userinfo': info}
        self.status = {}
        self.sent = []

    def __call__(self, url, method='GET', **kwargs):
        self.sent.append((url, method, kwargs))
        return Response(self.status.get(url, 200), json.dumps(self.answers[url]), url)


def hash_of(value, alg=''):
    return 'left half of the hash of ' + value


def relying_party(S, response_type, with_userinfo, key='this-session'):
    ctx = make_context(S, issuer=OP, client_id='client', client_secret='secret')
    ctx.keyjar = FakeKeyJar([OP])
    ctx.provider_info = {'token_endpoint': OP + '/token', 'userinfo_endpoint': OP + '/userinfo'}
    client = make_client(S, ctx)
    make_service(S, Authorization, client=client)
    client._service['accesstoken'] = make_service(S, AccessToken, client=client)
    client._service['accesstoken'].endpoint = OP + '/token'
    if with_userinfo:
        make_service(S, UserInfo, client=client).endpoint = OP + '/userinfo'
    for k in (key, 'that-session'):
        ctx.state.create_state(OP, k)
        ctx.state.store_item(Message(response_type=response_type, redirect_uri='https://rp/cb', state=k,
                                     nonce='nonce-' + k, scope='openid'), 'auth_request', k)
        ctx.state.store_nonce2state('nonce-' + k, k)
    ctx.state.store_item(Message(access_token='foreign', code='foreign', state='that-session'), 'auth_response',
                         'that-session')
    return make_handler(S, issuer2rp={OP: client}), client, ctx


def id_token(S, name, sub, now, front=None):
    claims = {'iss': OP, 'sub': sub, 'aud': ['client'], 'nonce': 'nonce-this-session', 'iat': now, 'exp': now + 600,
              'name': S.str(name + ' name'), 'hat_size': S.str(name + ' hat size')}
    if front:
        if 'access_token' in front:
            claims['at_hash'] = hash_of(front['access_token'])
        if 'code' in front:
            claims['c_hash'] = hash_of(front['code'])
    return {'jwt': 'jwt.' + name, 'alg': 'RS256', 'claims': claims, 'good': True, 'verified_with': None}


def login(S, types, userinfo=True):
    """an authorization response of the given type that is all right, and what the provider will answer"""
    now = S.now()
    S.assume(1000 < now < 10 ** 10)
    rt = S.choice('response type', *types)
    parts = rt.split(' ')
    sub = S.str('sub')
    front = {'state': 'this-session'}
    if 'code' in parts:
        front['code'] = S.str('code', no=('%', '+'))
    if 'token' in parts:
        front['access_token'] = S.str('front at')
        front['token_type'] = 'Bearer'
    toks = []
    if 'id_token' in parts:
        toks.append(id_token(S, 'front', sub, now, front))
        front['id_token'] = 'jwt.front'
    back_sub = S.str('back sub')
    back = {'access_token': S.str('back at'), 'token_type': 'Bearer'}
    if 'code' in parts and S.flag('token endpoint gives an ID token'):
        back['id_token'] = 'jwt.back'
        toks.append(id_token(S, 'back', back_sub, now))
    info = {'sub': S.str('info sub'), 'nickname': S.str('nickname')}
    S.patch(oidcmsg.oidc, 'left_hash', hash_of)
    S.trust('cryptojwt: left_hash is a function of the value that is hashed')
    install(S, toks)
    has_ui = userinfo and S.flag('user info service')
    rph, client, ctx = relying_party(S, rt, has_ui)
    net = Provider(OP, back, info)
    client.http = net
    return rph, client, ctx, net, parts, front, back, info, toks, has_ui


def claims_of(toks, name):
    for t in toks:
        if t['jwt'] == 'jwt.' + name:
            return t['claims']
    return None


@contract('C31', targets=[RH + 'finalize', RH + 'finalize_auth', RH + 'get_access_and_id_token', RH + 'get_tokens',
                          RH + 'get_user_info', RH + 'userinfo_in_id_token'])
def reported(S):
    """every response type, with and without a user info service"""
    rph, client, ctx, net, parts, front, back, info, toks, has_ui = login(S, TYPES)
    args = None
    collect = False
    if 'code' in parts and 'token' in parts:
        collect = S.flag('collect tokens')
        args = {'collect_tokens': collect}
    given = dict(front)
    if 'token' not in parts and 'id_token' not in parts and S.flag('more than was asked for'):
        given['access_token'] = S.str('unsolicited')
        given['token_type'] = 'Bearer'
    before = S.snapshot(ctx.state._db)
    out = S.call(rph.finalize, OP, given, args)
    asks = 'code' in parts and ('token' not in parts or collect)
    f, b = claims_of(toks, 'front'), claims_of(toks, 'back')
    if asks:
        at, idt = back['access_token'], b
    else:
        at, idt = front.get('access_token'), f
    # who it is about has to agree
    subs_agree = True
    if asks and f is not None and b is not None and f['sub'] != b['sub']:
        subs_agree = False
    session_sub = None
    if asks and b is not None:
        session_sub = b['sub']
    elif f is not None:
        session_sub = f['sub']
    if has_ui and at and session_sub is not None and info['sub'] != session_sub:
        subs_agree = False
    if not out.ok:
        S.check(not subs_agree, 'a login that is all right is reported')
        S.cover('refused')
        return
    S.check(subs_agree, 'a login about two subjects is not reported')
    res = out.value
    S.check('error' not in res, 'a login that is all right is no error')
    S.check(res['state'] == 'this-session', 'the session is named')
    S.check(res['token'] == at, 'the access token is the one this login yielded')
    if idt is not None:
        S.check(res['id_token'] is not None and res['id_token']['sub'] == idt['sub'] and
                res['id_token']['hat_size'] == idt['hat_size'], 'the ID token is the one this login yielded')
        S.cover('ID token')
    elif f is not None:
        S.check(res['id_token'] is None or res['id_token']['hat_size'] == f['hat_size'],
                'the ID token is the one this login yielded')
    else:
        S.check(res['id_token'] is None, 'no ID token is made up')
    want = []
    if asks:
        want.append((OP + '/token', 'POST'))
    if has_ui and at:
        want.append((OP + '/userinfo', 'GET'))
    S.check([(u, m) for u, m, kw in net.sent] == want, 'the provider is asked for what the login needs, once')
    if asks:
        S.cover('token endpoint')
    if has_ui and at:
        S.check(net.sent[-1][2]['headers']['Authorization'] == 'Bearer ' + at, 'user info is asked for with that token')
        S.check(res['userinfo']['sub'] == info['sub'] and res['userinfo']['nickname'] == info['nickname'],
                'the user info is the one the provider gave')
        S.cover('user info')
    elif res['id_token'] is not None:
        S.check(res['userinfo']['sub'] == res['id_token']['sub'] and
                res['userinfo']['name'] == res['id_token']['name'] and
                res['userinfo']['hat_size'] == res['id_token']['hat_size'], 'the user info is that of the ID token')
        S.cover('from the ID token')
    else:
        S.check(len(res['userinfo']) == 0, 'no user info is made up')
        S.cover('nothing')
    S.check(S.unchanged_except(before, ctx.state._db, ['this-session', 'refthis-sessionref', '==' + info['sub'] + '=='] +
                               ['==' + t['claims']['sub'] + '==' for t in toks]), 'no other session is touched')


@contract('C31', targets=[RH + 'finalize', RH + 'finalize_auth', RH + 'get_access_and_id_token', RH + 'get_tokens'])
def something_is_missing(S):
    """a response without what its type promises, or an error on the way, is never reported as a login"""
    rph, client, ctx, net, parts, front, back, info, toks, has_ui = login(S, TYPES)
    fault = S.choice('fault', 'no code', 'no access token', 'no ID token', 'no access token from the token endpoint',
                     'error from the token endpoint', 'error status from the token endpoint',
                     'error from the user info endpoint', 'error status from the user info endpoint', 'no state')
    asks = 'code' in parts and 'token' not in parts
    needs_info = has_ui and (asks or 'token' in parts)
    if fault == 'no code':
        S.assume(asks)
        del front['code']
    elif fault == 'no access token':
        S.assume('token' in parts)
        del front['access_token']
    elif fault == 'no ID token':
        S.assume('id_token' in parts and not asks)
        del front['id_token']
    elif fault == 'no access token from the token endpoint':
        S.assume(asks)
        del back['access_token']
    elif fault == 'error from the token endpoint':
        S.assume(asks)
        back['error'] = S.str('error')
    elif fault == 'error status from the token endpoint':
        S.assume(asks)
        net.status[OP + '/token'] = S.int('status', 400, 599)
    elif fault == 'error from the user info endpoint':
        S.assume(needs_info)
        info['error'] = S.str('error')
    elif fault == 'error status from the user info endpoint':
        S.assume(needs_info)
        net.status[OP + '/userinfo'] = S.int('status', 400, 599)
    else:
        del front['state']
    out = S.call(rph.finalize, OP, dict(front))
    if out.ok:
        S.check('error' in out.value, 'what is not complete is not reported as a login')
    S.check(not out.ok or 'token' not in out.value, 'nothing is handed out')
    S.cover('done')


@contract('C31', targets=[RH + 'finalize', RH + 'finalize_auth'])
def error_response(S):
    """the provider says no"""
    rph, client, ctx, net, parts, front, back, info, toks, has_ui = login(S, ('code', 'code id_token'))
    err = S.str('error')
    front['error'] = err
    before = S.snapshot(ctx.state._db)
    out = S.call(rph.finalize, OP, dict(front))
    if out.ok:
        S.check(out.value['error'] == err and out.value['state'] == 'this-session', 'the error is reported, with its session')
        S.check('token' not in out.value and 'userinfo' not in out.value, 'nothing else is reported')
        S.cover('error')
    S.check(net.sent == [], 'nothing is asked of the provider')
    S.check(S.unchanged_except(before, ctx.state._db), 'no session is touched')


@contract('C31', targets=[RH + 'userinfo_in_id_token'])
def claims_about_the_user(S):
    """user info taken from an ID token"""
    rph = make_handler(S)
    names = ('name', 'email', 'phone_number', 'hat_size')
    claims = S.record('claims', {'sub': S.str('sub'), 'iss': OP, 'aud': ['client'], 'exp': 1, 'iat': 1},
                      {'name': S.str('name'), 'email': S.str('email'), 'hat_size': S.str('hat size'),
                       'nonce': S.str('nonce'), 'email_verified': S.bool('verified')})
    idt = oidcmsg.oidc.IdToken(**claims)
    before = S.snapshot(idt.to_dict())
    out = S.call(rph.userinfo_in_id_token, idt)
    S.check(out.ok, 'there is user info')
    for k in ('sub', 'name', 'email', 'hat_size', 'email_verified'):
        S.check((k in out.value) == (k in idt), 'the claims about the user are those of the ID token')
        if k in idt:
            S.check(out.value[k] == idt[k], 'the claims about the user are those of the ID token')
    S.check(S.same(before, idt.to_dict()), 'the ID token is not changed')
    S.cover('done')


@contract('C31', targets=[SRV + 'parse_response', SRV + 'get_urlinfo', SRV + '_do_response'])
def handed_in_as_text(S):
    """the response as parameters, as a query string, or as the URL the user was sent to"""
    rph, client, ctx = relying_party(S, 'code', False)
    install(S, [])
    srv = client._service['authorization']
    code, state = S.str('code'), S.str('state')
    args = {'code': code, 'state': state, 'session_state': S.str('session state')}
    form = S.choice('form', 'dict', 'query', 'url', 'fragment', 'json')
    if form == 'dict':
        out = S.call(srv.parse_response, args, 'dict')
    elif form == 'json':
        out = S.call(srv.parse_response, json.dumps(args), 'json')
    else:
        text = urlencode(args)
        if form == 'url':
            text = 'https://rp/cb?' + text
        elif form == 'fragment':
            text = 'https://rp/cb#' + text
        out = S.call(srv.parse_response, text, 'urlencoded')
    S.check(out.ok, 'the response is understood')
    S.check(out.value['code'] == code and out.value['state'] == state and
            out.value['session_state'] == args['session_state'], 'the parameters are those that were sent')
    S.cover('done')


def two_providers(S, mine):
    """one handler, two providers, a session with each that has got as far as its tokens"""
    clients, ctxs = {}, {}
    for n in ('a', 'b'):
        iss = 'https://op-' + n
        ctx = make_context(S, issuer=iss, client_id='client-' + n, client_secret='secret-' + n)
        ctx.keyjar = FakeKeyJar([iss])
        ctx.provider_info = {'issuer': iss, 'token_endpoint': iss + '/token', 'userinfo_endpoint': iss + '/userinfo', 'authorization_endpoint': iss + '/authz'}
        ctx.behaviour = {'scope': ['openid'], 'response_types': ['code']}
        ctx.redirect_uris = ['https://rp/' + n]
        client = make_client(S, ctx)
        make_service(S, Authorization, client=client).endpoint = iss + '/authz'
        make_service(S, AccessToken, client=client).endpoint = iss + '/token'
        make_service(S, RefreshAccessToken, client=client).endpoint = iss + '/token'
        make_service(S, UserInfo, client=client).endpoint = iss + '/userinfo'
        clients[iss], ctxs[n] = client, ctx
    keys = {'a': 'session-a', 'b': 'session-b'}
    tokens = {k: S.str(k, nonempty=True, no=('%', '+')) for k in ('code', 'at', 'rt')}
    for n in ('a', 'b'):
        st = ctxs[n].state
        st.create_state('https://op-' + n, keys[n])
        st.store_item(Message(response_type='code', redirect_uri='https://rp/' + n, state=keys[n], scope='openid'),
                      'auth_request', keys[n])
        st.store_item(Message(code=tokens['code'] if n == mine else 'foreign code', state=keys[n]), 'auth_response', keys[n])
        st.store_item(Message(access_token=tokens['at'] if n == mine else 'foreign at',
                              refresh_token=tokens['rt'] if n == mine else 'foreign rt', token_type='Bearer'),
                      'token_response', keys[n])
    return make_handler(S, issuer2rp=clients), clients, ctxs, keys, tokens


@contract('C26', targets=[RH + 'get_tokens', RH + 'refresh_access_token', RH + 'get_user_info',
                          RH + 'get_access_and_id_token', RH + 'get_client_from_session_key', RH + 'state2issuer'])
def by_state_alone(S):
    """operations that are told the state only reach the provider of that session, as its client"""
    n = S.choice('session', 'a', 'b')
    rph, clients, ctxs, keys, tokens = two_providers(S, n)
    install(S, [])
    iss = 'https://op-' + n
    info = {'sub': 'diana'}
    nets = {}
    for i in clients:
        nets[i] = clients[i].http = Provider(i, {'access_token': 'new', 'token_type': 'Bearer'}, info)
    op = S.choice('operation', 'tokens', 'access and ID token', 'refresh', 'user info')
    key = keys[n] if S.choice('state', 'known', 'unknown') == 'known' else 'unknown'
    other = 'a' if n == 'b' else 'b'
    before = S.snapshot(ctxs[other].state._db)
    here = S.snapshot(ctxs[n].state._db)
    if op == 'tokens':
        out = S.call(rph.get_tokens, key)
    elif op == 'access and ID token':
        out = S.call(rph.get_access_and_id_token, state=key)
    elif op == 'refresh':
        scope = S.choice('scope', None, 'openid', ['openid', 'email'])
        out = S.call(rph.refresh_access_token, key) if scope is None else S.call(rph.refresh_access_token, key, scope=scope)
    else:
        own = S.choice('token', 'of the session', 'given')
        token = tokens['at'] if own == 'of the session' else S.str('own token')
        out = S.call(rph.get_user_info, key) if own == 'of the session' else \
            S.call(rph.get_user_info, key, access_token=token)
    sent = [(u, m, kw) for i in nets for u, m, kw in nets[i].sent]
    S.check(S.unchanged_except(before, ctxs[other].state._db), 'the session with the other provider is not touched')
    if key == 'unknown':
        S.check(not out.ok and sent == [], 'an unknown state is an error and nothing is sent')
        S.check(S.unchanged_except(here, ctxs[n].state._db), 'no session is touched')
        S.cover('unknown')
        return
    S.check(out.ok, 'the operation succeeds')
    S.check(len(sent) == 1 and len(nets[iss].sent) == 1, 'one request is sent, by the client of the session')
    url, method, kw = sent[0]
    S.check(url == (iss + '/userinfo' if op == 'user info' else iss + '/token'), 'to the provider of the session')
    if op == 'user info':
        S.check(kw['headers']['Authorization'] == 'Bearer ' + token, 'with the token of the session, or the one given')
        S.check(out.value['sub'] == 'diana', 'the answer is returned')
        S.cover('user info')
    else:
        body = {k: v[0] for k, v in parse_qs(kw['data']).items()}
        if op == 'refresh':
            S.check(kw['headers'].get('Authorization') == 'Bearer ' + tokens['rt'] or body.get('refresh_token') == tokens['rt'],
                    'with the refresh token of the session')
            S.check(body['grant_type'] == 'refresh_token', 'as a refresh')
            if scope is not None:
                S.check(body['scope'] == (' '.join(scope) if isinstance(scope, list) else scope), 'for the scope asked for')
            S.cover('refresh')
        else:
            S.check(body['code'] == tokens['code'] and body['redirect_uri'] == 'https://rp/' + n and
                    body['grant_type'] == 'authorization_code', 'with the code and redirect URI of the session')
            S.cover('tokens')
        S.check(out.value['access_token'] == 'new', 'the answer is returned')


@contract('C26', targets=[RH + 'init_authorization', RH + 'do_provider_info', RH + 'do_client_registration',
                          RH + 'get_client_from_session_key'])
def steps_by_state(S):
    """the steps before a login, told a state (of an earlier login) or nothing instead of the client"""
    n = S.choice('session', 'a', 'b')
    rph, clients, ctxs, keys, tokens = two_providers(S, n)
    iss = 'https://op-' + n
    other = 'a' if n == 'b' else 'b'
    told = S.choice('told', 'state', 'unknown', 'nothing')
    kw = {'state': {'state': keys[n], 'unknown': 'unknown', 'nothing': ''}[told]}
    step = S.choice('step', 'provider info', 'registration', 'authorization')
    new = S.str('new endpoint', nonempty=True)
    ctxs[n].provider_info['token_endpoint'] = new
    before = S.snapshot(ctxs[other].state._db)
    here = S.snapshot(ctxs[n].state._db)
    fn = {'provider info': rph.do_provider_info, 'registration': rph.do_client_registration,
          'authorization': rph.init_authorization}[step]
    if step == 'registration':
        kw['iss_id'] = 'name'
    out = S.call(fn, **kw)
    S.check(S.unchanged_except(before, ctxs[other].state._db), 'the sessions with the other provider are not touched')
    ends = {m: clients['https://op-' + m]._service['accesstoken'].endpoint for m in ('a', 'b')}
    if told != 'state':
        S.check(not out.ok, 'without a session there is no client')
        S.check(S.unchanged_except(here, ctxs[n].state._db), 'no session is touched')
        S.check(rph.hash2issuer == {}, 'nothing is remembered')
        S.check(ends == {'a': 'https://op-a/token', 'b': 'https://op-b/token'}, 'no client is changed')
        S.cover('refused')
        return
    S.check(out.ok, 'the step is taken')
    if step == 'provider info':
        S.check(out.value == iss and ends[n] == new and ends[other] == 'https://op-' + other + '/token',
                'the endpoints of the client of that provider are set, nothing else')
        S.cover('provider info')
    elif step == 'registration':
        S.check(rph.hash2issuer == {'name': iss} and ctxs[n].client_id == 'client-' + n, 'the client there is stays')
        S.cover('registration')
    else:
        q = {k: v[0] for k, v in parse_qs(urlsplit(out.value['url']).query).items()}
        state = out.value['state']
        S.check(out.value['url'].startswith(iss + '/authz?'), 'the request goes to the provider of the session')
        S.check(q['client_id'] == 'client-' + n and q['redirect_uri'] == 'https://rp/' + n and q['state'] == state,
                'it comes from its client')
        S.check(S.is_random(state) and state != keys[n], 'it has a session of its own')
        S.check(ctxs[n].state.get_iss(state) == iss, 'with that provider')
        S.check(S.unchanged_except(here, ctxs[n].state._db, [state, 'ref' + state + 'ref', '__' + q['nonce'] + '__']),
                'the session it was told about is not touched')
        S.cover('authorization')


@contract('C08', targets=[RH + 'get_tokens', RH + 'refresh_access_token', RH + 'get_client_authn_method',
                          'oidcrp.service.Service.init_authentication_method',
                          'oidcrp.oidc.access_token.AccessToken.get_authn_method'])
def agreed_method(S):
    """the requests a handler makes to the token endpoint are authenticated in the way agreed with the provider"""
    rph, clients, ctxs, keys, tokens = two_providers(S, 'a')
    install(S, [])
    iss, ctx, key = 'https://op-a', ctxs['a'], keys['a']
    client = clients[iss]
    ctx.client_secret = S.str('secret', no=('%', '+'))
    agreed = S.choice('agreed', 'basic', 'post', 'list', 'nothing', 'unknown')
    names = {'basic': 'client_secret_basic', 'post': 'client_secret_post', 'unknown': 'client_secret_magic',
             'list': ['client_secret_post', 'client_secret_basic']}
    if agreed != 'nothing':
        ctx.behaviour = {'token_endpoint_auth_method': names[agreed]}
    # what has been agreed with another provider plays no part
    ctxs['b'].behaviour = {'token_endpoint_auth_method': 'client_secret_basic' if agreed == 'post' else
                           'client_secret_post'}
    net = client.http = Provider(iss, {'access_token': 'new', 'token_type': 'Bearer'}, {})
    op = S.choice('operation', 'tokens', 'refresh')
    out = S.call(rph.get_tokens if op == 'tokens' else rph.refresh_access_token, key)
    if agreed == 'unknown':
        S.check(not out.ok and net.sent == [], 'a method that is not known is an error, nothing is sent')
        S.cover('unknown')
        return
    S.check(out.ok and len(net.sent) == 1, 'one request is made')
    kw = net.sent[0][2]
    body = {k: v[0] for k, v in parse_qs(kw['data']).items()}
    headers = kw['headers']
    if agreed in ('post', 'list'):
        S.check(body['client_secret'] == ctx.client_secret and body['client_id'] == 'client-a', 'the secret is in the body')
        S.check('Authorization' not in headers, 'and not in the header')
        S.cover('post')
    elif agreed == 'basic' or op == 'tokens':
        S.check(headers['Authorization'] == 'Basic ' + base64.b64encode(
            ('client-a:' + quote_plus(ctx.client_secret)).encode('utf-8')).decode('utf-8'), 'the secret is in the header')
        S.check('client_secret' not in body, 'and not in the body')
        S.cover('basic')
    else:
        # nothing agreed: the default of the refresh service is the token itself
        S.check(headers['Authorization'] == 'Bearer ' + tokens['rt'], 'the default of the service')
        S.cover('default')
