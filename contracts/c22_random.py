"""C22 values that must be unpredictable."""
import json
import string
from urllib.parse import parse_qs
from urllib.parse import urlsplit

from dv.api import contract

from contracts import tokens
from contracts.c13_begin import client_for
from contracts.c21_dpop import KeyMaker
from contracts.common import KeyJarStub, make_client, make_context, make_handler, make_service

from oidcmsg.message import Message
from oidcrp import util
from oidcrp.client_auth import assertion_jwt
from oidcrp.cookie import CookieDealer
from oidcrp.defaults import BASECHR
from oidcrp.oauth2 import access_token as o2_at
from oidcrp.oauth2 import authorization as o2_authz
from oidcrp.oauth2.add_on import do_add_ons
from oidcrp.oauth2.add_on.dpop import dpop_header
from oidcrp.oidc.end_session import EndSession
from oidcrp.rp_handler import RPHandler
from oidcrp.service_context import ServiceContext

UT = 'oidcrp.util.'
ALNUM = string.ascii_letters + string.digits
UNRESERVED = ALNUM + '-._~'


def made(S, fn, chars, size):
    out = S.call(fn, size)
    S.check(out.ok and isinstance(out.value, str) and len(out.value) == size, 'the text has the length asked for')
    S.check(S.drawn_from(out.value, chars), 'every character is drawn from the whole alphabet')
    return out.value


@contract('C22', targets=[UT + 'rndstr'])
def any_length(S):
    """rndstr for every length"""
    S.own_proof()
    size = S.int('size', 16, 400)
    a = made(S, util.rndstr, ALNUM, size)
    S.check(S.is_random(a), 'the text comes from the random source of the system')
    b = made(S, util.rndstr, ALNUM, size)
    S.check(S.is_random(b) and a != b, 'two texts differ')
    S.cover('texts')


@contract('C22', targets=[UT + 'unreserved'])
def any_length_unreserved(S):
    """unreserved for every length"""
    S.own_proof()
    S.check(set(BASECHR) >= set(ALNUM) and set(BASECHR) <= set(UNRESERVED) and len(BASECHR) == len(set(BASECHR)),
            'the alphabet is letters and digits at least, all allowed by RFC 7636, each once')
    size = S.int('size', 16, 400)
    a = made(S, util.unreserved, BASECHR, size)
    S.check(S.is_random(a), 'the text comes from the random source of the system')
    b = made(S, util.unreserved, BASECHR, size)
    S.check(S.is_random(b) and a != b, 'two texts differ')
    S.cover('texts')


@contract('C22', targets=[UT + 'rndstr', UT + 'unreserved'])
def any_short_length(S):
    """short texts have the length asked for too"""
    S.own_proof()
    size = S.int('size', 0, 15)
    made(S, util.rndstr, ALNUM, size)
    made(S, util.unreserved, BASECHR, size)
    S.cover('texts')


@contract('C22', targets=[UT + 'rndstr', UT + 'unreserved'])
def default_length(S):
    """the default lengths"""
    S.own_proof()
    a = S.call(util.rndstr)
    S.check(a.ok and len(a.value) >= 16 and S.is_random(a.value) and S.drawn_from(a.value, ALNUM),
            'by default a random text of at least 16 characters')
    b = S.call(util.unreserved)
    S.check(b.ok and len(b.value) >= 43 and S.is_random(b.value) and S.drawn_from(b.value, BASECHR),
            'by default a random text of at least 43 characters')
    S.cover('texts')


@contract('C22', targets=['oidcrp.rp_handler.RPHandler.init_authorization',
                          'oidcrp.oidc.authorization.Authorization.oidc_pre_construct',
                          'oidcrp.state_interface.StateInterface.create_state'])
def authentication(S):
    """state and nonce of two authentications"""
    ctxs = client_for(S, '', 'oidc', 'https://op', ['openid'], S.choice('response_type', 'code', 'id_token', 'id_token token'))
    client, ctx = ctxs
    rph = make_handler(S, issuer2rp={'https://op': client})
    how = S.choice('by', 'begin', 'init_authorization', 'service')
    seen = []
    for i in range(2):
        if how == 'begin':
            out = S.call(rph.begin, issuer_id='https://op')
        elif how == 'init_authorization':
            out = S.call(rph.init_authorization, client)
        else:
            key = ctx.state.create_state('https://op')
            out = S.call(client._service['authorization'].get_request_parameters,
                         request_args={'state': key, 'response_type': 'id_token', 'redirect_uri': 'https://rp/cb'})
        S.check(out.ok, 'an authentication request is made')
        q = parse_qs(urlsplit(out.value['url']).query)
        S.check('state' in q and 'nonce' in q, 'with state and nonce')
        seen.append(q['state'][0])
        seen.append(q['nonce'][0])
    for v in seen:
        S.check(S.is_random(v) and len(v) >= 16, 'state and nonce are random and long')
    for i in range(len(seen)):
        for j in range(i):
            S.check(seen[i] != seen[j], 'no two of these values are the same')
    S.cover('authentications')


@contract('C22', targets=['oidcrp.state_interface.StateInterface.create_state'])
def session(S):
    """session keys"""
    ctx = make_context(S)
    iss = S.str('iss')
    a = S.call(ctx.state.create_state, iss)
    b = S.call(ctx.state.create_state, iss)
    S.check(a.ok and b.ok and a.value != b.value, 'two sessions have different keys')
    for k in (a.value, b.value):
        S.check(S.is_random(k) and len(k) >= 16, 'the key of a session is random and long')
    S.cover('sessions')


@contract('C22', targets=['oidcrp.oauth2.add_on.pkce.add_code_challenge'])
def verifier(S):
    """code verifiers"""
    ctx = make_context(S, issuer='https://op', client_id='client', client_secret='secret')
    ctx.redirect_uris = ['https://rp/cb']
    ctx.provider_info = {'token_endpoint': 'https://op/token', 'authorization_endpoint': 'https://op/authz',
                         'issuer': 'https://op'}
    client = make_client(S, ctx)
    az = make_service(S, o2_authz.Authorization, client=client)
    at = make_service(S, o2_at.AccessToken, client=client)
    kwargs = {'code_challenge_method': S.choice('method', 'S256', 'S384', 'S512')}
    length = S.int('length', 43, 128)
    kwargs['code_challenge_length'] = length
    do_add_ons({'pkce': {'function': 'oidcrp.oauth2.add_on.pkce.add_support', 'kwargs': kwargs}}, client._service)
    seen = []
    for key in ('a' * 32, 'b' * 32):
        ctx.state.create_state('https://op', key)
        S.check(S.call(az.get_request_parameters, request_args={
            'state': key, 'response_type': 'code', 'redirect_uri': 'https://rp/cb'}).ok, 'an authorization request')
        ctx.state.store_item(Message(code='c'), 'auth_response', key)
        out = S.call(at.get_request_parameters, state=key, authn_method='client_secret_basic')
        S.check(out.ok, 'a token request')
        seen.append(parse_qs(out.value['body'])['code_verifier'][0])
    for v in seen:
        S.check(S.is_random(v) and len(v) == length, 'a verifier is random and has the full length')
    S.check(seen[0] != seen[1], 'every authentication has its own verifier')
    S.cover('verifiers')


@contract('C22', targets=['oidcrp.client_auth.assertion_jwt'])
def assertion(S):
    """identifiers of client assertions"""
    tokens.install_signer(S)
    seen = []
    for i in range(2):
        out = S.call(assertion_jwt, S.str('client_id'), [tokens.Key('RSA', 'k')], 'https://op', 'RS256')
        S.check(out.ok, 'an assertion is made')
        seen.append(json.loads(tokens.signed(out.value)['payload'])['jti'])
    S.check(S.is_random(seen[0]) and S.is_random(seen[1]), 'the identifier of an assertion is random')
    S.check(seen[0] != seen[1], 'two assertions have different identifiers')
    S.cover('assertions')


@contract('C22', targets=['oidcrp.oauth2.add_on.dpop.dpop_header'])
def proof(S):
    """identifiers of proofs of possession"""
    maker = KeyMaker()
    maker.install(S)
    ctx = make_context(S, issuer='https://op', add_on={'dpop': {'algs_supported': ['ES256']}})
    ctx.provider_info = {'issuer': 'https://op', 'token_endpoint': 'https://op/token',
                         'dpop_signing_alg_values_supported': ['ES256']}
    client = make_client(S, ctx)
    make_service(S, o2_at.AccessToken, client=client)
    do_add_ons({'dpop': {'function': 'oidcrp.oauth2.add_on.dpop.add_support',
                         'kwargs': {'signing_algorithms': ['ES256']}}}, client._service)
    seen = []
    for i in range(2):
        out = S.call(dpop_header, ctx, 'token_endpoint', 'POST', None)
        S.check(out.ok, 'a proof is made')
        seen.append(tokens.signed(out.value['dpop'])['payload']['jti'])
    S.check(S.is_random(seen[0]) and S.is_random(seen[1]), 'the identifier of a proof is random')
    S.check(seen[0] != seen[1], 'two proofs have different identifiers')
    S.cover('proofs')


@contract('C22', targets=['oidcrp.oidc.end_session.EndSession.add_state'])
def logout(S):
    """state of logout requests"""
    ctx = make_context(S, issuer='https://op', client_id='client',
                       provider_info={'end_session_endpoint': 'https://op/end', 'issuer': 'https://op'},
                       post_logout_redirect_uris=['https://rp/out'])
    client = make_client(S, ctx)
    make_service(S, EndSession, client=client)
    rph = make_handler(S, issuer2rp={'https://op': client})
    key = ctx.state.create_state('https://op')
    seen = []
    for i in range(2):
        out = S.call(rph.logout, key)
        S.check(out.ok, 'a logout request is made')
        seen.append(parse_qs(urlsplit(out.value['url']).query)['state'][0])
    S.check(S.is_random(seen[0]) and S.is_random(seen[1]), 'the state of a logout is random')
    S.check(seen[0] != seen[1] and seen[0] != key, 'every logout has its own state')
    S.cover('logouts')


class Server:
    def __init__(self):
        self.symkey = None


@contract('C22', targets=['oidcrp.cookie.CookieDealer.init_srv'])
def cookie_seed(S):
    """the secret cookies are signed with, when none is configured"""
    a, b = Server(), Server()
    configured = S.flag('configured')
    if configured:
        a.seed = b'configured'
    S.check(S.call(CookieDealer, a).ok and S.call(CookieDealer, b).ok, 'a dealer is made')
    if configured:
        S.check(a.seed == b'configured', 'the configured secret is used')
    else:
        S.check(S.is_random(a.seed) and a.seed != b.seed, 'the secret of each server is random')
    S.check(S.is_random(b.seed), 'the secret is random')
    S.cover('dealers')


@contract('C22', targets=['oidcrp.service_context.ServiceContext.__init__', 'oidcrp.rp_handler.RPHandler.__init__'])
def hash_seeds(S):
    """the seeds of the callback addresses, when none are configured"""
    what = S.choice('what', 'context', 'handler')
    seen = []
    for i in range(2):
        if what == 'context':
            out = S.call(ServiceContext, keyjar=KeyJarStub(), config={'client_id': 'c'})
        else:
            out = S.call(RPHandler, 'https://rp', keyjar=SeedKeyJar(), httpc_params={'verify': True})
        S.check(out.ok, 'it can be made')
        seen.append(out.value.hash_seed)
    S.check(S.is_random(seen[0]) and S.is_random(seen[1]) and seen[0] != seen[1], 'each has its own random seed')
    S.cover('seeds')


class SeedKeyJar(KeyJarStub):
    httpc_params = None

    def __len__(self):
        return 0
