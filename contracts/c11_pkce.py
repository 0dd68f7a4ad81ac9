"""C11 PKCE."""
import hashlib
from urllib.parse import parse_qs
from urllib.parse import urlsplit

from cryptojwt.utils import b64e

from dv.api import contract

from contracts.common import make_client, make_context, make_service

from oidcmsg.message import Message
from oidcrp.exception import Unsupported
from oidcrp.oauth2 import access_token as o2_at
from oidcrp.oauth2 import authorization as o2_authz
from oidcrp.oauth2.add_on import do_add_ons
from oidcrp.oidc import access_token as oidc_at
from oidcrp.oidc import authorization as oidc_authz

PK = 'oidcrp.oauth2.add_on.pkce.'
HASH = {'S256': hashlib.sha256, 'S384': hashlib.sha384, 'S512': hashlib.sha512}


def setup(S, flavour, name, length, method):
    ctx = make_context(S, issuer='https://op/' + name, client_id='client', client_secret='secret')
    ctx.redirect_uris = ['https://rp/cb/' + name]
    ctx.provider_info = {'token_endpoint': 'https://op/token', 'authorization_endpoint': 'https://op/authz',
                         'issuer': 'https://op/' + name}
    client = make_client(S, ctx)
    if flavour == 'oidc':
        az = make_service(S, oidc_authz.Authorization, client=client)
        at = make_service(S, oidc_at.AccessToken, client=client)
    else:
        az = make_service(S, o2_authz.Authorization, client=client)
        at = make_service(S, o2_at.AccessToken, client=client)
    do_add_ons({'pkce': {'function': 'oidcrp.oauth2.add_on.pkce.add_support',
                         'kwargs': {'code_challenge_length': length, 'code_challenge_method': method}}},
               client._service)
    return ctx, az, at


def begin(S, ctx, az, key, again=None):
    args = {'state': key, 'response_type': 'code', 'redirect_uri': ctx.redirect_uris[0], 'nonce': 'n' + key}
    if again is not None:
        args = {k: v for k, v in again.items() if k not in ('scope',)}
    out = S.call(az.get_request_parameters, request_args=args)
    S.check(out.ok, 'an authorization request is made')
    return out


def token_request(S, ctx, at, key):
    ctx.state.store_item(Message(code='c'), 'auth_response', key)
    out = S.call(at.get_request_parameters, state=key, authn_method='client_secret_basic')
    S.check(out.ok, 'a token request is made')
    return parse_qs(out.value['body'])


def check_pair(S, authz, verifier, method, length):
    req = authz.value['request']
    url = authz.value['url']
    q = parse_qs(urlsplit(url).query)
    S.check(q['code_challenge'] == [b64e(HASH[method](verifier.encode()).digest()).decode('ascii')],
            'the challenge is the transformation of the verifier of this session')
    S.check(q['code_challenge_method'] == [method], 'by the method that is named')
    S.check(S.is_random(verifier) and len(verifier) == length, 'the verifier is random and has the configured length')
    for k in q:
        S.check(k == 'code_challenge' or not S.is_random(q[k][0]) or q[k] != [verifier],
                'the verifier is not in the authorization request')
    for k in req.keys():
        S.check(k != 'code_verifier', 'the verifier is not in the authorization request')


@contract('C11', targets=[PK + 'add_code_challenge', PK + 'add_code_verifier', PK + 'put_state_in_post_args',
                          PK + 'add_support', 'oidcrp.service.Service.construct'])
def bound(S):
    """two sessions of one client; another client with another configuration"""
    flavour = S.choice('flavour', 'oidc', 'oauth2')
    length = S.int('length', 43, 128)
    method = S.choice('code_challenge_method', 'S256', 'S384', 'S512')
    ctx, az, at = setup(S, flavour, 'a', length, method)
    other_client = S.flag('other_client')
    ctx2, az2, at2 = ctx, az, at
    length2, method2 = length, method
    if other_client:
        method2, length2 = 'S512', 128
        ctx2, az2, at2 = setup(S, flavour, 'b', length2, method2)
        ctx2.state = ctx.state
    k1, k2 = 'session1', 'session2'
    ctx.state.create_state(ctx.issuer, k1)
    ctx.state.create_state(ctx2.issuer, k2)
    a1 = begin(S, ctx, az, k1)
    a2 = begin(S, ctx2, az2, k2)
    if S.flag('second_first'):
        t2 = token_request(S, ctx2, at2, k2)
        t1 = token_request(S, ctx, at, k1)
    else:
        t1 = token_request(S, ctx, at, k1)
        t2 = token_request(S, ctx2, at2, k2)
    check_pair(S, a1, t1['code_verifier'][0], method, length)
    check_pair(S, a2, t2['code_verifier'][0], method2, length2)
    S.check(t1['code_verifier'] != t2['code_verifier'], 'sessions have different verifiers')
    S.cover('done')


@contract('C11', targets=[PK + 'add_code_challenge'])
def defaults(S):
    """a configuration that does not say how: S256 with 64 characters; an unknown method is an error"""
    flavour = S.choice('flavour', 'oidc', 'oauth2')
    ctx, az, at = setup(S, flavour, 'a', 64, 'S256')
    what = S.choice('configuration', 'empty', 'length', 'plain', 'unknown')
    length = 64
    if what == 'empty':
        ctx.add_on['pkce'] = {}
    elif what == 'length':
        length = S.int('length', 43, 128)
        ctx.add_on['pkce'] = {'code_challenge_length': length}
    elif what == 'plain':
        ctx.add_on['pkce'] = {'code_challenge_length': 64, 'code_challenge_method': 'plain'}
    else:
        m = S.str('other_method')
        S.assume(m != 'S256' and m != 'S384' and m != 'S512')
        ctx.add_on['pkce'] = {'code_challenge_length': 64, 'code_challenge_method': m}
    ctx.state.create_state(ctx.issuer, 's')
    if what in ('plain', 'unknown'):
        out = S.call(az.get_request_parameters, request_args={'state': 's', 'response_type': 'code'})
        S.check(not out.ok and issubclass(out.exc, Unsupported), 'an unsupported method is an error')
        S.cover('refused')
    else:
        a = begin(S, ctx, az, 's')
        t = token_request(S, ctx, at, 's')
        check_pair(S, a, t['code_verifier'][0], 'S256', length)
        S.cover('done')


@contract('C11', targets=[PK + 'add_code_verifier'])
def no_verifier(S):
    """a session without challenge gives no verifier of another session"""
    flavour = S.choice('flavour', 'oidc', 'oauth2')
    ctx, az, at = setup(S, flavour, 'a', 64, 'S256')
    ctx.state.create_state(ctx.issuer, 's')
    ctx.state.create_state(ctx.issuer, 'x')
    begin(S, ctx, az, 's')
    ctx.state.store_item(Message(redirect_uri='https://rp/cb', response_type='code', client_id='client', state='x'),
                         'auth_request', 'x')
    ctx.state.store_item(Message(code='c'), 'auth_response', 'x')
    out = S.call(at.get_request_parameters, state='x', authn_method='client_secret_basic')
    if out.ok:
        S.check('code_verifier' not in parse_qs(out.value['body']), 'no foreign verifier')
    S.cover('done')


@contract('C11', targets=[PK + 'add_code_challenge'])
def new_request(S):
    """a second authorization request in the same session: the last challenge counts"""
    ctx, az, at = setup(S, 'oidc', 'a', 64, 'S256')
    ctx.state.create_state(ctx.issuer, 's')
    a1 = begin(S, ctx, az, 's')
    a2 = begin(S, ctx, az, 's', again=a1.value['request'] if S.flag('same arguments again') else None)
    S.check(a1.value['request']['code_challenge'] != a2.value['request']['code_challenge'], 'every challenge is fresh')
    t = token_request(S, ctx, at, 's')
    check_pair(S, a2, t['code_verifier'][0], 'S256', 64)
    S.cover('done')
