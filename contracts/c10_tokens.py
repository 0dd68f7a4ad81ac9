"""C12 lifetimes of tokens and logins, C10 which bearer token is presented, C29 refresh."""
from dv.api import contract

from contracts.common import free_key, make_client, make_context, make_handler, make_service

from oidcmsg.message import Message
from oidcmsg.oauth2 import AccessTokenRequest
from oidcmsg.oauth2 import AccessTokenResponse
from oidcmsg.oauth2 import RefreshAccessTokenRequest
from oidcmsg.oidc import IdToken
from oidcrp.client_auth import BearerBody
from oidcrp.client_auth import BearerHeader
from oidcrp.exception import OidcServiceError
from oidcrp.oauth2 import access_token as o2_at
from oidcrp.oauth2 import authorization as o2_authz
from oidcrp.oauth2 import refresh_access_token as o2_rat
from oidcrp.oauth2.client_credentials import cc_access_token
from oidcrp.oauth2.client_credentials import cc_refresh_access_token
from oidcrp.oidc import access_token as oidc_at
from oidcrp.oidc import authorization as oidc_authz
from oidcrp.oidc import refresh_access_token as oidc_rat
from oidcrp.oidc.check_session import CheckSession
from oidcrp.oidc.read_registration import RegistrationRead
from oidcrp.oidc.userinfo import UserInfo
from oidcrp.provider import github
from oidcrp.provider import linkedin

RH = 'oidcrp.rp_handler.RPHandler.'
USC = '.update_service_context'

SERVICES = {
    'oauth2 token': (o2_at.AccessToken, 'token_response'),
    'oidc token': (oidc_at.AccessToken, 'token_response'),
    'oauth2 authorization': (o2_authz.Authorization, 'auth_response'),
    'oidc authorization': (oidc_authz.Authorization, 'auth_response'),
    'oauth2 refresh': (o2_rat.RefreshAccessToken, 'refresh_token_response'),
    'oidc refresh': (oidc_rat.RefreshAccessToken, 'refresh_token_response'),
    'github token': (github.AccessToken, 'token_response'),
    'linkedin token': (linkedin.AccessToken, 'token_response'),
    'cc token': (cc_access_token.CCAccessToken, 'token_response'),
    'cc refresh': (cc_refresh_access_token.CCRefreshAccessToken, 'refresh_token_response'),
}


def world(S, fixed=False):
    iss = 'https://op' if fixed else S.str('iss')
    ctx = make_context(S, issuer=iss, client_id='client')
    key = 'this-session' if fixed else free_key(S, 'key')
    other = 'that-session' if fixed else free_key(S, 'other')
    S.assume(key != other)
    ctx.state.create_state(iss, key)
    ctx.state.create_state(iss, other)
    client = make_client(S, ctx)
    rph = make_handler(S, issuer2rp={iss: client})
    return ctx, client, rph, key, other


@contract('C12', targets=['oidcrp.oauth2.access_token.AccessToken' + USC,
                          'oidcrp.oidc.access_token.AccessToken' + USC,
                          'oidcrp.oauth2.authorization.Authorization' + USC,
                          'oidcrp.oidc.authorization.Authorization' + USC,
                          'oidcrp.oauth2.refresh_access_token.RefreshAccessToken' + USC,
                          'oidcrp.oauth2.client_credentials.cc_access_token.CCAccessToken' + USC,
                          'oidcrp.oauth2.client_credentials.cc_refresh_access_token.CCRefreshAccessToken'
                          + USC])
def lifetime_recorded(S):
    """a token response with a lifetime is stored with the time it ends"""
    ctx, client, rph, key, other = world(S, fixed=True)
    kind = S.choice('service', *SERVICES)
    cls, item = SERVICES[kind]
    srv = make_service(S, cls, client=client)
    life = S.int('expires_in', 0, 10 ** 9)
    now = S.now()
    S.assume(now > 1000)
    with_life = S.flag('with lifetime')
    token = S.str('token')
    resp = srv.response_cls(access_token=token, token_type='Bearer')
    if with_life:
        resp['expires_in'] = life
        if S.flag('with an end of its own'):
            resp['__expires_at'] = S.int('claimed_end', 0)
    before = S.snapshot(ctx.state._db)
    out = S.call(srv.update_service_context, resp, key)
    S.check(out.ok, 'a token response is stored')
    S.check(S.unchanged_except(before, ctx.state._db, [key]), 'no other session is touched')
    valid = S.call(rph.get_valid_access_token, key)
    if with_life and life == 0:
        S.check(not valid.ok, 'a token whose lifetime is nothing is not valid')
        S.cover('no life')
        return
    S.check(valid.ok and valid.value[0] == token, 'the stored token can be used')
    if with_life:
        S.check(valid.value[1] == now + life, 'it ends when the lifetime given by the provider is over')
        wait = S.int('wait', 0, 2 * 10 ** 9)
        S.later(wait)
        again = S.call(rph.get_valid_access_token, key)
        S.check(again.ok == (wait < life), 'it is handed out until then and not after')
        S.cover('with')
    else:
        S.check(valid.value[1] == 0, 'a token without lifetime has no end')
        S.later(10 ** 9)
        S.check(S.call(rph.get_valid_access_token, key).ok, 'a token without lifetime has no end')
        S.cover('without')
    S.check(not S.call(rph.get_valid_access_token, other).ok, 'a session without token has no valid token')


def token_item(S, name):
    """a stored response: optional token, optional end"""
    return S.record(name, {'token_type': 'Bearer'},
                    {'access_token': S.str(name + '_token'), '__expires_at': S.int(name + '_end', 1)})


@contract('C12', targets=[RH + 'get_valid_access_token'])
def valid_token(S):
    """any combination of stored responses"""
    ctx, client, rph, key, other = world(S, fixed=True)
    now = S.now()
    S.assume(now > 0)
    items = []
    for typ in ('auth_response', 'token_response', 'refresh_token_response'):
        if S.flag(typ):
            it = token_item(S, typ)
            ctx.state.store_item(AccessTokenResponse(**it), typ, key)
            items.append(it)
    foreign = S.str('foreign')
    ctx.state.store_item(AccessTokenResponse(access_token=foreign), 'token_response', other)
    usable = False
    for it in items:
        if 'access_token' in it and ('__expires_at' not in it or it['__expires_at'] > now):
            usable = True
    out = S.call(rph.get_valid_access_token, key)
    S.check(out.ok == usable, 'a token is given if and only if a valid one is stored in the session')
    if not out.ok:
        S.check(out.exc is OidcServiceError, 'no valid token is reported as such')
        S.cover('none')
    else:
        token, end = out.value
        S.check(end == 0 or end > now, 'the token given is not expired')
        found = False
        best = True
        for it in items:
            if 'access_token' in it:
                if '__expires_at' not in it:
                    if end != 0:
                        best = False
                    elif token == it['access_token']:
                        found = True
                else:
                    if end != 0 and it['__expires_at'] > end:
                        best = False
                    if token == it['access_token'] and end == it['__expires_at']:
                        found = True
        S.check(found, 'token and end belong together and to the session')
        S.check(best, 'no stored token of the session lives longer')
        S.cover('some')


@contract('C12', targets=[RH + 'get_valid_access_token'])
def several_without_end(S):
    """of several tokens that do not end, the one received last"""
    ctx, client, rph, key, other = world(S, fixed=True)
    now = S.now()
    S.assume(now > 0)
    latest = None
    for typ in ('auth_response', 'token_response', 'refresh_token_response'):
        kind = S.choice(typ, 'nothing', 'no token', 'without an end', 'with an end')
        if kind == 'without an end':
            latest = S.str(typ + '_token')
            ctx.state.store_item(AccessTokenResponse(access_token=latest), typ, key)
        elif kind == 'with an end':
            it = AccessTokenResponse(access_token=S.str(typ + '_ends'))
            it['__expires_at'] = S.int(typ + '_end', 1)
            ctx.state.store_item(it, typ, key)
        elif kind == 'no token':
            ctx.state.store_item(AccessTokenResponse(token_type='Bearer'), typ, key)
    S.assume(latest is not None)
    out = S.call(rph.get_valid_access_token, key)
    S.check(out.ok and out.value[1] == 0, 'a token without an end is valid')
    S.check(out.value[0] == latest, 'of several without an end the one received last')
    S.cover('done')


@contract('C12', targets=[RH + 'has_active_authentication'])
def active_authentication(S):
    """logged in as long as the ID token of the session lasts"""
    timed = S.flag('a maximum age was asked for')
    ctx, client, rph, key, other = world(S, fixed=timed)
    now = S.now()
    S.assume(now > 1000)
    last = None
    if timed:
        ctx.behaviour = {'default_max_age': S.int('max_age', 0), 'max_age': S.int('max_age', 0)}
    for typ in ('auth_response', 'token_response', 'refresh_token_response'):
        if S.flag(typ):
            resp = Message(access_token='x')
            if S.flag(typ + ' with ID token'):
                idt = IdToken(iss='i', sub='s', aud=['client'], exp=S.int(typ + '_exp', 1), iat=1)
                if timed:
                    idt['auth_time'] = S.int(typ + '_auth_time', 1)
                resp['__verified_id_token'] = idt
                last = idt
            ctx.state.store_item(resp, typ, key)
    o = Message(access_token='x')
    o['__verified_id_token'] = IdToken(iss='i', sub='s', aud=['client'], exp=S.int('o_exp', 1), iat=1)
    ctx.state.store_item(o, 'token_response', other)
    out = S.call(rph.has_active_authentication, key)
    S.check(out.ok, 'the question is answered')
    S.check(bool(out.value) == (last is not None and last['exp'] > now),
            'logged in if and only if the latest ID token of the session has not expired')
    if last is not None:
        S.cover('token')
    else:
        S.cover('no token')


@contract('C12', targets=[RH + 'has_active_authentication', RH + 'get_valid_access_token'])
def asked_again(S):
    """the answers follow what the session receives and the time that goes by, whatever was asked before"""
    ctx, client, rph, key, other = world(S, fixed=True)
    now = S.now()
    S.assume(1000 < now < 10 ** 10)
    received = []
    for n, typ in enumerate(('token_response', 'refresh_token_response', 'refresh_token_response')):
        exp, until = S.int('exp%d' % n, 1001), S.int('until%d' % n, 1001)
        resp = Message(access_token='at%d' % n, __expires_at=until)
        resp['__verified_id_token'] = IdToken(iss='i', sub='s', aud=['client'], exp=exp, iat=1)
        ctx.state.store_item(resp, typ, key)
        received = received[:1] + [('at%d' % n, until)]
        now = S.later(S.int('time%d' % n, 0, 10 ** 6))
        active = S.call(rph.has_active_authentication, key)
        S.check(active.ok and bool(active.value) == (exp > now), 'logged in as long as the ID token received last is valid')
        valid = S.call(rph.get_valid_access_token, key)
        good = [t for t in received if t[1] > now]
        if not good:
            S.check(not valid.ok, 'no token is valid any more')
        else:
            S.check(valid.ok and valid.value in good and all(valid.value[1] >= t[1] for t in good),
                    'the valid token that expires last')
        gone = S.call(rph.has_active_authentication, other)
        S.check(gone.ok and not gone.value, 'another session is not logged in by it')
    S.cover('done')


# ------------------------------------------------------------------ C10
CA = 'oidcrp.client_auth.'


@contract('C10', targets=[CA + 'BearerHeader.construct', CA + 'find_token'])
def bearer_header(S):
    """the token in the Authorization header, from request, argument or session"""
    ctx, client, rph, key, other = world(S)
    srv = make_service(S, UserInfo, client=client)
    stored = None
    for typ in ('auth_response', 'token_response', 'refresh_token_response'):
        if S.flag(typ):
            it = S.record(typ, {'token_type': 'Bearer'}, {'access_token': S.str(typ + '_token')})
            ctx.state.store_item(AccessTokenResponse(**it), typ, key)
            if 'access_token' in it:
                stored = it['access_token']
    ctx.state.store_item(AccessTokenResponse(access_token=S.str('foreign')), 'token_response', other)
    before = S.snapshot(ctx.state._db)
    req = Message(**S.record('req', {'claim': 'c'}, {'access_token': S.str('req_token')}))
    in_request = 'access_token' in req
    req_token = req['access_token'] if in_request else None
    kw = S.record('kw', {'key': key}, {'access_token': S.str('arg_token')})
    http_args = S.choice('http_args', None, 'empty', 'headers')
    if http_args == 'empty':
        http_args = {}
    elif http_args == 'headers':
        http_args = {'headers': {'Accept': 'x'}}
    out = S.call(BearerHeader().construct, req, srv, http_args, **kw)
    if in_request:
        expected = req_token
    elif 'access_token' in kw:
        expected = kw['access_token']
    else:
        expected = stored
    if expected is None:
        S.check(not out.ok, 'no token, no request')
        S.cover('none')
    else:
        S.check(out.ok and out.value['headers']['Authorization'] == 'Bearer ' + expected,
                'the header carries the explicit token, else the latest token of this session')
        S.check('access_token' not in req, 'the token is sent in the header only')
        if http_args is not None and len(http_args) > 0 and 'Accept' in http_args['headers']:
            S.check(out.value['headers']['Accept'] == 'x', 'other headers are kept')
        S.cover('token')
    S.check(S.unchanged_except(before, ctx.state._db), 'presenting a token changes no session')


@contract('C10', targets=[CA + 'BearerHeader.construct', CA + 'find_token'])
def bearer_header_refresh(S):
    """the refresh service presents the refresh token of the request"""
    ctx, client, rph, key, other = world(S)
    kind = S.choice('service', 'oauth2 refresh', 'oidc refresh')
    srv = make_service(S, SERVICES[kind][0], client=client)
    rtok = S.str('refresh')
    req = srv.msg_type(refresh_token=rtok, grant_type='refresh_token')
    out = S.call(BearerHeader().construct, req, srv, {}, key=key)
    S.check(out.ok and out.value['headers']['Authorization'] == 'Bearer ' + rtok,
            'a refresh request presents the refresh token')
    S.check('refresh_token' not in req, 'the refresh token is sent once')
    S.cover('done')


@contract('C10', targets=[CA + 'BearerBody.construct', CA + 'find_token'])
def bearer_body(S):
    ctx, client, rph, key, other = world(S)
    srv = make_service(S, UserInfo, client=client)
    stored = None
    for typ in ('auth_response', 'token_response', 'refresh_token_response'):
        if S.flag(typ):
            it = S.record(typ, {'token_type': 'Bearer'}, {'access_token': S.str(typ + '_token')})
            ctx.state.store_item(AccessTokenResponse(**it), typ, key)
            if 'access_token' in it:
                stored = it['access_token']
    ctx.state.store_item(AccessTokenResponse(access_token=S.str('foreign')), 'token_response', other)
    req = Message(**S.record('req', {'claim': 'c'}, {'access_token': S.str('req_token')}))
    if 'access_token' in req:
        expected = req['access_token']
    else:
        expected = stored
    out = S.call(BearerBody().construct, req, srv, {}, key=key)
    if expected is None:
        S.check(not out.ok, 'no token, no request')
        S.cover('none')
    else:
        S.check(out.ok and req['access_token'] == expected,
                'the body carries the explicit token, else the latest token of this session')
        S.check('Authorization' not in out.value.get('headers', {}), 'the token is sent in the body only')
        S.cover('token')


@contract('C10', targets=['oidcrp.oidc.userinfo.UserInfo.oidc_pre_construct',
                          'oidcrp.service.Service.get_request_parameters', 'oidcrp.service.Service.get_headers',
                          'oidcrp.service.Service.init_authentication_method'])
def userinfo_request(S):
    """the user info request as it leaves the service"""
    ctx, client, rph, key, other = world(S)
    endpoint = S.url('endpoint')
    ctx.provider_info = {'userinfo_endpoint': endpoint}
    srv = make_service(S, UserInfo, client=client)
    token = S.str('token')
    ctx.state.store_item(AccessTokenResponse(access_token=token), 'token_response', key)
    ctx.state.store_item(AccessTokenResponse(access_token=S.str('foreign')), 'token_response', other)
    req_args = S.choice('args', None, 'empty', 'token')
    explicit = S.str('explicit')
    if req_args == 'empty':
        req_args = {}
    elif req_args == 'token':
        req_args = {'access_token': explicit}
    given = req_args is not None and len(req_args) == 1
    out = S.call(srv.get_request_parameters, request_args=req_args, state=key)
    S.check(out.ok, 'the request is built')
    info = out.value
    S.check(info['headers']['Authorization'] == 'Bearer ' + (explicit if given else token),
            'the request presents the explicit token, else the one of this session')
    S.check(info['method'] == 'GET' and info['url'] == endpoint, 'it goes to the userinfo endpoint, token not in the URL')
    S.cover('done')


@contract('C10', targets=['oidcrp.oidc.userinfo.UserInfo.oidc_pre_construct',
                          'oidcrp.service.Service.get_request_parameters', 'oidcrp.service.Service.construct',
                          'oidcrp.service.Service.gather_request_args'])
def userinfo_requests_in_a_row(S):
    """requests for several sessions by one service: each with the token of its session"""
    ctx, client, rph, key, other = world(S, fixed=True)
    ctx.provider_info = {'userinfo_endpoint': 'https://op/userinfo'}
    authn = S.choice('authn', '', 'bearer_header', 'bearer_body', 'github')
    if authn == 'github':   # an interface older than bearer tokens: the token is a parameter of the request
        srv = make_service(S, github.UserInfo, client=client)
    else:
        conf = {'default_authn_method': authn} if authn else None
        srv = make_service(S, UserInfo, client=client, conf=conf)
    method = S.choice('method', 'GET', 'POST') if authn == 'bearer_body' else 'GET'
    tokens = {}
    for k, n in ((key, 'one'), (other, 'two')):
        tokens[k] = []
        if k == key and S.flag('first from the authorization endpoint'):
            t = S.str('front')
            S.assume(t != '')
            ctx.state.store_item(AccessTokenResponse(access_token=t), 'auth_response', k)
            tokens[k].append(t)
        if S.flag('token ' + n):
            t = S.str(n)
            S.assume(t != '')
            ctx.state.store_item(AccessTokenResponse(access_token=t), 'token_response', k)
            tokens[k].append(t)
    for k in (key, other, key):
        kw = {} if method == 'GET' else {'method': 'POST'}
        out = S.call(srv.get_request_parameters, state=k, **kw)
        if out.ok and authn == 'github' and len(tokens[k]) == 0:
            S.check('access_token' not in out.value['request'] and
                    'Authorization' not in out.value.get('headers', {}), 'no token of another session')
            S.cover('unauthenticated')
        elif out.ok:
            S.check(len(tokens[k]) > 0, 'no token, no request')
            if authn in ('bearer_body', 'github'):
                S.check(out.value['request']['access_token'] == tokens[k][-1] and
                        'Authorization' not in out.value.get('headers', {}),
                        'the request presents the token of its session')
            else:
                S.check(out.value['headers'].get('Authorization') == 'Bearer ' + tokens[k][-1] and
                        'access_token' not in out.value['request'], 'the request presents the token of its session')
            S.cover('sent')
        else:
            S.check(len(tokens[k]) == 0, 'a session with a token can ask')
            S.cover('no token')
        # the provider rotates the token of the session the request was for
        if len(tokens[k]) > 0 and S.flag('refreshed'):
            t = S.str('refreshed')
            S.assume(t != '')
            ctx.state.store_item(AccessTokenResponse(access_token=t), 'refresh_token_response', k)
            tokens[k].append(t)


class Asked:
    """a client that records what it is asked to do"""
    log = []

    def __init__(self, context):
        self._service_context = context

    def client_get(self, what, *args):
        return self._service_context

    def do_request(self, request_type, request_args=None, **kwargs):
        Asked.log.append((request_type, request_args, kwargs))
        return Message(sub='sub')


@contract('C10', targets=[RH + 'get_user_info'])
def handler_user_info(S):
    """which token the handler uses when it asks for user info"""
    ctx, client, rph, key, other = world(S, fixed=True)
    client = Asked(ctx)
    rph.issuer2rp = {'https://op': client}
    Asked.log = []
    stored = None
    for typ in ('auth_response', 'token_response', 'refresh_token_response'):
        if S.flag(typ):
            it = S.record(typ, {'token_type': 'Bearer'}, {'access_token': S.str(typ + '_token')})
            ctx.state.store_item(AccessTokenResponse(**it), typ, key)
            if 'access_token' in it:
                stored = it['access_token']
    ctx.state.store_item(AccessTokenResponse(access_token=S.str('foreign')), 'token_response', other)
    before = S.snapshot(ctx.state._db)
    given = S.flag('token given')
    explicit = S.str('explicit')
    args = {'access_token': explicit} if given else {}
    if S.flag('client given'):
        args['client'] = client
    out = S.call(rph.get_user_info, key, **args)
    want = explicit if given else stored
    if want is None:
        S.check(not out.ok and len(Asked.log) == 0, 'without a token of the session nothing is sent')
        S.cover('none')
    else:
        S.check(out.ok and len(Asked.log) == 1, 'the provider is asked once')
        what, req, kw = Asked.log[0]
        S.check(what == 'userinfo' and req == {'access_token': want} and kw['state'] == key,
                'with the token given, else the one most recently received in the session')
        S.cover('asked')
    S.check(S.unchanged_except(before, ctx.state._db), 'asking changes no session')


@contract('C10', targets=['oidcrp.oidc.read_registration.RegistrationRead.get_endpoint',
                          'oidcrp.oidc.read_registration.RegistrationRead.get_authn_header',
                          'oidcrp.service.Service.get_request_parameters'])
def registration_token(S):
    """the registration access token: only to where the registration can be read"""
    ctx, client, rph, key, other = world(S)
    rat, at = S.str('registration_token'), S.str('token')
    S.assume(rat != at)
    ctx.client_secret = 'secret'
    ctx.registration_response = {'client_id': 'client', 'registration_client_uri': 'https://op/reg?client=1',
                                 'registration_access_token': rat}
    ctx.provider_info = {'userinfo_endpoint': 'https://op/userinfo',
                         'registration_endpoint': 'https://op/registration'}
    ctx.state.store_item(AccessTokenResponse(access_token=at), 'token_response', key)
    read = make_service(S, RegistrationRead, client=client)
    info = make_service(S, UserInfo, client=client)
    first = S.flag('user info first')
    if first:
        S.call(info.get_request_parameters, state=key)
    kw = {'state': key} if S.flag('in a session') else {}
    out = S.call(read.get_request_parameters, **kw)
    S.check(out.ok and out.value['url'] == 'https://op/reg?client=1' and out.value['method'] == 'GET',
            'the registration is read where the provider said')
    S.check(out.value['headers']['Authorization'] == 'Bearer ' + rat, 'with the token of the registration')
    S.check('body' not in out.value, 'and nothing else')
    ui = S.call(info.get_request_parameters, state=key)
    S.check(ui.ok and ui.value['headers']['Authorization'] == 'Bearer ' + at and ui.value['url'] == 'https://op/userinfo',
            'other requests carry the token of their session')
    S.cover('read')


@contract('C10', targets=['oidcrp.oidc.check_session.CheckSession.oidc_pre_construct'])
def session_check(S):
    """the ID token handed over in a session check is that of the session"""
    ctx, client, rph, key, other = world(S, fixed=True)
    srv = make_service(S, CheckSession, client=client)
    srv.endpoint = 'https://op/check'
    mine, foreign = S.str('id_token', no=('&', '=', '+', '%', ' ')), S.str('foreign', no=('&', '=', '+', '%', ' '))
    S.assume(mine != '' and foreign != '')
    have = S.flag('with ID token')
    if have:
        ctx.state.store_item(AccessTokenResponse(access_token='a', id_token=mine), 'token_response', key)
    ctx.state.store_item(AccessTokenResponse(access_token='b', id_token=foreign), 'token_response', other)
    before = S.snapshot(ctx.state._db)
    for k, tok in ((key, mine), (other, foreign), (key, mine)):
        out = S.call(srv.get_request_parameters, request_args={} if S.flag('args') else None, state=k)
        if out.ok:
            if have or k == other:
                S.check(out.value['request']['id_token'] == tok, 'the ID token of the session')
                S.cover('sent')
            else:
                S.check('id_token' not in out.value['request'], 'no ID token of another session')
                S.cover('no ID token')
        else:
            S.check(not have and k == key, 'a session with an ID token can be checked')
    S.check(S.unchanged_except(before, ctx.state._db), 'no session is changed')


# ------------------------------------------------------------------ C29
REFRESH = ['oidcrp.oauth2.refresh_access_token.RefreshAccessToken' + USC,
           'oidcrp.oauth2.refresh_access_token.RefreshAccessToken.oauth_pre_construct',
           'oidcrp.oauth2.client_credentials.cc_refresh_access_token.CCRefreshAccessToken' + USC,
           'oidcrp.oauth2.client_credentials.cc_refresh_access_token.CCRefreshAccessToken.cc_pre_construct']


@contract('C29', targets=REFRESH)
def refresh_chain(S):
    """login, then two refreshes, each with or without a new refresh token"""
    also = S.choice('also in the responses', 'nothing', 'scope', 'expires_in', 'id_token', 'something unknown')
    ctx, client, rph, key, other = world(S, fixed=also != 'nothing')
    kind = S.choice('service', 'oauth2 refresh', 'oidc refresh', 'cc refresh')
    srv = make_service(S, SERVICES[kind][0], client=client)
    first = AccessTokenResponse(access_token=S.str('at0'), token_type='Bearer', refresh_token=S.str('rt0'))
    idt = IdToken(iss='i', sub='s', aud=['client'], exp=S.int('exp', 1001), iat=1)
    first['__verified_id_token'] = idt
    ctx.state.store_item(first, 'token_response', key)
    ctx.state.store_item(AccessTokenResponse(access_token='foreign', token_type='Bearer',
                                             refresh_token=S.str('foreign')), 'token_response', other)
    before = S.snapshot(ctx.state._db)
    current = first['refresh_token']
    for n in ('1', '2'):
        req = S.call(srv.construct, {}, state=key)
        S.check(req.ok and req.value['refresh_token'] == current,
                'a refresh request carries the latest refresh token of the session')
        resp = srv.response_cls(**S.record('resp' + n, {'access_token': S.str('at' + n), 'token_type': 'Bearer'},
                                           {'refresh_token': S.str('rt' + n)}))
        if also == 'scope':
            resp['scope'] = ['openid', 'offline_access']
        elif also == 'expires_in':
            resp['expires_in'] = S.int('expires in ' + n, 0)
        elif also == 'id_token':
            resp['id_token'] = S.str('id token ' + n)
            resp['__verified_id_token'] = idt
        elif also == 'something unknown':
            resp['refresh_expires_in'] = S.int('other ' + n)
        if 'refresh_token' in resp:
            current = resp['refresh_token']
        latest = resp['access_token']
        out = S.call(srv.update_service_context, resp, key)
        S.check(out.ok, 'the refresh response is stored')
    req = S.call(srv.construct, {}, state=key)
    S.check(req.ok and req.value['refresh_token'] == current,
            'a refresh request carries the latest refresh token of the session')
    token = S.call(ctx.state.multiple_extend_request_args, {}, key, ['access_token'],
                   ['auth_response', 'token_response', 'refresh_token_response'])
    S.check(token.value['access_token'] == latest, 'the refreshed access token is the one in use')
    now = S.now()
    S.assume(now > 1000)
    active = S.call(rph.has_active_authentication, key)
    if also != 'expires_in':
        S.check(active.ok and bool(active.value) == (idt['exp'] > now), 'a refresh does not end the login')
    S.check(S.unchanged_except(before, ctx.state._db, [key]), 'other sessions keep their tokens')
    S.cover('done')


@contract('C29', targets=REFRESH)
def id_token_stays(S):
    """login, then two refreshes, each with or without an ID token: the one received last is the one of the session"""
    ctx, client, rph, key, other = world(S, fixed=True)
    srv = make_service(S, oidc_rat.RefreshAccessToken, client=client)
    now = S.now()
    S.assume(now > 1000)
    sub = S.str('sub')
    last = None
    for n, typ in enumerate(('token_response', 'refresh_token_response', 'refresh_token_response')):
        resp = srv.response_cls(access_token='at%d' % n, token_type='Bearer', refresh_token='rt%d' % n)
        if S.flag('ID token %d' % n):
            text, exp = S.str('id token %d' % n), S.int('exp %d' % n, 1001)
            resp['id_token'] = text
            resp['__verified_id_token'] = IdToken(iss='i', sub=sub, aud=['client'], exp=exp, iat=1)
            last = (text, exp)
        if n:
            out = S.call(srv.update_service_context, resp, key)
            S.check(out.ok, 'the refresh response is stored')
        else:
            ctx.state.store_item(resp, typ, key)
    kinds = ['auth_response', 'token_response', 'refresh_token_response']
    text = S.call(ctx.state.multiple_extend_request_args, {}, key, ['id_token'], kinds, orig=True)
    verified = S.call(ctx.state.multiple_extend_request_args, {}, key, ['id_token'], kinds)
    active = S.call(rph.has_active_authentication, key)
    if last is None:
        S.check(text.value == {} and verified.value == {}, 'no ID token is made up')
        S.check(active.ok and not active.value, 'without an ID token nobody is logged in')
        S.cover('none')
    else:
        S.check(text.ok and text.value == {'id_token': last[0]}, 'the ID token received last stays available')
        S.check(verified.ok and verified.value['id_token']['exp'] == last[1] and
                verified.value['id_token']['sub'] == sub, 'the ID token received last stays available, verified')
        S.check(active.ok and bool(active.value) == (last[1] > now), 'logged in as long as that one is valid')
        S.cover('some')


@contract('C29', targets=REFRESH)
def explicit_refresh_token(S):
    """an explicit refresh token is the one sent; none at all is reported"""
    ctx, client, rph, key, other = world(S)
    kind = S.choice('service', 'oauth2 refresh', 'oidc refresh', 'cc refresh')
    srv = make_service(S, SERVICES[kind][0], client=client)
    ctx.state.store_item(AccessTokenResponse(refresh_token=S.str('foreign')), 'token_response', other)
    stored = S.flag('stored')
    if stored:
        ctx.state.store_item(AccessTokenResponse(refresh_token=S.str('rt0')), 'token_response', key)
    rt = S.str('rt')
    req = S.call(srv.construct, {'refresh_token': rt}, state=key)
    S.check(req.ok and req.value['refresh_token'] == rt, 'the explicit refresh token is sent')
    if not stored:
        req = S.call(srv.construct, {}, state=key)
        S.check(req.ok and 'refresh_token' not in req.value, 'no other refresh token is sent instead')
        S.cover('none')
    S.cover('explicit')
