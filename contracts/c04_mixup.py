"""C04 mix-up defence, C26 several providers side by side."""
from dv.api import contract

from contracts.common import free_key, make_client, make_context, make_handler, make_service
from contracts.tokens import install

from oidcmsg.message import Message
from oidcmsg.oidc import AuthorizationResponse
from oidcmsg.oidc import OpenIDSchema
from oidcrp.oidc import RP
from oidcrp.oidc.access_token import AccessToken
from oidcrp.oidc.authorization import Authorization
from oidcrp.oidc.userinfo import UserInfo
from oidcrp.rp_handler import RPHandler

RH = 'oidcrp.rp_handler.RPHandler.'


def response_message(S, state):
    return S.record('resp', {'state': state, 'code': S.str('code')},
                    {'access_token': S.str('at')})


def setup_two(S):
    """a handler with a client per issuer, each with one session"""
    iss_a = S.str('iss_a')
    iss_b = S.str('iss_b')
    S.assume(iss_a != iss_b)
    ctx_a = make_context(S, issuer=iss_a, client_id='client_a')
    ctx_b = make_context(S, issuer=iss_b, client_id='client_b')
    a = make_client(S, ctx_a)
    b = make_client(S, ctx_b)
    make_service(S, Authorization, client=a)
    make_service(S, Authorization, client=b)
    key_a = free_key(S, 'key_a')
    key_b = free_key(S, 'key_b')
    S.assume(key_a != key_b)
    ctx_a.state.create_state(iss_a, key_a)
    ctx_b.state.create_state(iss_b, key_b)
    ctx_a.state.store_item(Message(response_type='code', redirect_uri='https://rp/a', nonce='n'),
                           'auth_request', key_a)
    ctx_b.state.store_item(Message(response_type='code', redirect_uri='https://rp/b', nonce='n'),
                           'auth_request', key_b)
    rph = make_handler(S, issuer2rp={iss_a: a, iss_b: b})
    return rph, a, b, ctx_a, ctx_b, iss_a, iss_b, key_a, key_b


@contract('C04', targets=[RH + 'finalize_auth'])
def finalize_auth(S):
    """one store holding sessions with arbitrary issuers"""
    iss = S.str('iss')
    ctx = make_context(S, issuer=iss, client_id=S.str('client_id'))
    client = make_client(S, ctx)
    srv = make_service(S, Authorization, client=client)
    key1 = free_key(S, 'key1')
    key2 = free_key(S, 'key2')
    S.assume(key1 != key2)
    iss1 = S.str('iss1')
    ctx.state.create_state(iss1, key1)
    ctx.state.create_state(S.str('iss2'), key2)
    install(S, [])
    state = S.str('state')
    resp = response_message(S, state)
    issuer = S.str('issuer', nonempty=False)
    before = S.snapshot(ctx.state._db)
    rph = make_handler(S)
    out = S.call(rph.finalize_auth, client, issuer, resp)
    if state == key1:
        if iss1 == issuer:
            S.check(out.ok and out.value['code'] == resp['code'], 'a response from the issuer of the session is accepted')
            got = ctx.state.get_item(AuthorizationResponse, 'auth_response', key1)
            S.check(got['code'] == resp['code'], 'it is stored in its session')
            S.check(S.unchanged_except(before, ctx.state._db, [key1]), 'no other session is touched')
            S.cover('accepted')
        else:
            S.check(not out.ok and out.exc is ValueError, 'a response from another issuer is refused')
            S.check(S.unchanged_except(before, ctx.state._db), 'a refused response leaves no trace')
            S.cover('impersonator')
    elif state != key2:
        S.check(not out.ok and out.exc is KeyError, 'a response for an unknown session is refused')
        S.check(S.unchanged_except(before, ctx.state._db), 'a refused response leaves no trace')
        S.cover('unknown')


@contract('C04', targets=[RH + 'finalize_auth'])
def no_state(S):
    """a response without a state"""
    iss = S.str('iss')
    ctx = make_context(S, issuer=iss, client_id='c')
    client = make_client(S, ctx)
    make_service(S, Authorization, client=client)
    ctx.state.create_state(iss, free_key(S, 'key1'))
    install(S, [])
    before = S.snapshot(ctx.state._db)
    out = S.call(make_handler(S).finalize_auth, client, iss, {'code': S.str('code')})
    S.check(not out.ok, 'a response without state is refused')
    S.check(S.unchanged_except(before, ctx.state._db), 'a refused response leaves no trace')
    S.cover('done')


@contract('C04', targets=[RH + 'finalize_auth'])
def error_response(S):
    """an error response is handed back, not processed"""
    iss = S.str('iss')
    ctx = make_context(S, issuer=iss, client_id='c')
    client = make_client(S, ctx)
    make_service(S, Authorization, client=client)
    key = free_key(S, 'key1')
    ctx.state.create_state(iss, key)
    install(S, [])
    before = S.snapshot(ctx.state._db)
    err = S.str('error')
    out = S.call(make_handler(S).finalize_auth, client, iss, {'error': err, 'state': key, 'code': S.str('code')})
    S.check(out.ok and out.value['error'] == err, 'the error is reported')
    S.check(S.unchanged_except(before, ctx.state._db), 'an error response changes no session')
    S.cover('done')


class Requests:
    """records the requests a client is asked to make"""
    made = []

    @staticmethod
    def do_request(self, request_type, response_body_type='', request_args=None, behaviour_args=None,
                   **kwargs):
        Requests.made.append((self._service_context.issuer, request_type, kwargs.get('state'),
                              request_args))
        if request_type == 'userinfo':
            return OpenIDSchema(sub='subject')
        return AuthorizationResponse(**{'access_token': 'token', '__verified_id_token': Message(sub='subject')})


@contract('C04', targets=[RH + 'finalize', RH + 'finalize_auth'])
def finalize_no_requests(S):
    """nothing is sent to anybody when the response comes from the wrong issuer"""
    rph, a, b, ctx_a, ctx_b, iss_a, iss_b, key_a, key_b = setup_two(S)
    install(S, [])
    Requests.made = []
    S.patch(RP, 'do_request', Requests.do_request)
    which = S.choice('issuer', 'a', 'b', 'unknown')
    if which == 'a':
        issuer = iss_a
    elif which == 'b':
        issuer = iss_b
    else:
        issuer = S.str('issuer')
        S.assume(issuer != iss_a and issuer != iss_b)
    state = S.choice('state', 'a', 'b')
    resp = {'state': key_a if state == 'a' else key_b, 'code': S.str('code')}
    before_a = S.snapshot(ctx_a.state._db)
    before_b = S.snapshot(ctx_b.state._db)
    out = S.call(rph.finalize, issuer, resp)
    if which != state:
        S.check(not out.ok, 'a response of another issuer, or an unknown one, is refused')
        S.check(Requests.made == [], 'no code or token is sent anywhere')
        S.check(S.unchanged_except(before_a, ctx_a.state._db) and
                S.unchanged_except(before_b, ctx_b.state._db), 'no session changes')
        S.cover('refused')
    else:
        S.check(out.ok, 'the right issuer is served')
        S.check(out.value['token'] == 'token' and out.value['state'] == resp['state'], 'the result names the session')
        S.check(len(Requests.made) == 1 and Requests.made[0][0] == issuer and
                Requests.made[0][1] == 'accesstoken', 'the code goes to the issuer of the session only')
        S.check(Requests.made[0][3]['code'] == resp['code'] and Requests.made[0][2] == resp['state'],
                'the code sent is the code received')
        if which == 'a':
            S.check(S.unchanged_except(before_b, ctx_b.state._db), 'sessions with the other provider are untouched')
        else:
            S.check(S.unchanged_except(before_a, ctx_a.state._db), 'sessions with the other provider are untouched')
        S.cover('served')
