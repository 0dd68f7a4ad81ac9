"""C21 DPoP: proof of possession of a key, for one request."""
import json

from dv.api import contract

from contracts.common import make_client, make_context, make_service
from contracts.tokens import KeyRing, Signer, install_signer, signed

import cryptojwt.jws.jws
from cryptojwt.jwk.jwk import key_from_jwk_dict
from oidcmsg.oauth2 import AccessTokenResponse
from oidcrp.oauth2.access_token import AccessToken
from oidcrp.oauth2.add_on import dpop
from oidcrp.oauth2.add_on.dpop import DPoPProof
from oidcrp.oauth2.add_on.dpop import add_support
from oidcrp.oauth2.add_on.dpop import dpop_header
from oidcrp.oidc.userinfo import UserInfo

DP = 'oidcrp.oauth2.add_on.dpop.'
SV = 'oidcrp.service.Service.'
ASYMMETRIC = ('RS256', 'RS512', 'ES256', 'ES512', 'PS256')


class ProofKey:
    """a key pair"""

    def __init__(self, kty, alg, number):
        self.kty = kty
        self.alg = alg
        self.number = number
        self.private = True

    def serialize(self, private=False):
        d = {'kty': self.kty, 'n': 'public %d' % self.number}
        if private or self.kty == 'oct':
            d['d'] = 'private %d' % self.number
        return d

    def deserialize(self):
        return None


class KeyMaker:
    def __init__(self):
        self.made = []

    def key_gen(self, kty, alg='', **kwargs):
        k = ProofKey(kty if kty != 'sym' else 'oct', alg, len(self.made))
        self.made.append(k)
        return k

    def key_by_alg(self, alg):
        if alg.startswith('RS'):
            return self.key_gen('RSA', alg='RS256')
        if alg.startswith('ES'):
            return self.key_gen('EC')
        if alg.startswith('HS'):
            return self.key_gen('sym')
        raise ValueError(alg)

    def from_jwk(self, jwk, private=None):
        k = ProofKey(jwk['kty'], '', -1)
        k.private = False
        return k

    def install(self, S):
        install_signer(S)
        S.trust('cryptojwt.key_bundle.key_gen, key_by_alg give a new key pair; serialize() its public part, except '
                'for symmetric keys')
        S.patch(dpop, 'JWS', Signer)
        S.patch(dpop, 'key_by_alg', self.key_by_alg)
        if hasattr(dpop, 'key_gen'):
            S.patch(dpop, 'key_gen', self.key_gen)
        S.patch(dpop, 'key_from_jwk_dict', self.from_jwk)


def check_proof(S, maker, header, method, url, alg, now):
    """what the proof says; -> identifier"""
    t = signed(header)
    S.check(t is not None, 'there is a signed proof')
    body, head = t['payload'], t['extra']
    S.check(body['htm'] == method, 'the proof names the method of the request')
    S.check(body['htu'] == url, 'the proof names the URL of the request')
    S.check(body['iat'] == int(now), 'the proof was made now')
    S.check(S.is_random(body['jti']) and len(body['jti']) >= 16, 'the proof has a random identifier')
    S.check(len(body) == 4, 'and says nothing else')
    S.check(head['typ'] == 'dpop+jwt' and head['alg'] == alg, 'type and algorithm are declared')
    S.check(t['alg'] == alg, 'the proof is signed with the algorithm declared')
    key = t['key']
    S.check(key in maker.made and key.private, 'the proof is signed with a private key made here')
    S.check(head['jwk'] == key.serialize(), 'the proof carries the public key it is signed with')
    S.check('d' not in head['jwk'], 'the private key is not disclosed')
    S.check(key.alg in ('', alg), 'the key is for that algorithm')
    return body['jti']


def world(S, algs):
    ctx = make_context(S, issuer='https://op', client_id='client', client_secret='secret')
    ctx.provider_info = {'issuer': 'https://op', 'token_endpoint': S.str('token_endpoint'),
                         'userinfo_endpoint': S.str('userinfo_endpoint')}
    client = make_client(S, ctx)
    make_service(S, AccessToken, client=client)
    make_service(S, UserInfo, client=client)
    add_support(client._service, algs)
    return ctx, client


def chosen(wanted, supported):
    for a in wanted:
        if supported is not None and a in supported and not a.startswith('HS'):
            return a
    return None


ALGS = ('RS256', 'PS512', 'ES384', 'HS256')


@contract('C21', targets=[DP + 'dpop_header', DP + 'DPoPProof.create_header', DP + 'DPoPProof.__init__', DP + 'add_support'])
def header(S):
    """any method, URL, headers, configured and announced algorithms"""
    maker = KeyMaker()
    maker.install(S)
    wanted = []
    for n in ('first', 'second'):
        wanted.append(S.choice(n, *ALGS))
    supported = None
    if S.flag('announced'):
        supported = S.texts('supported')
    ctx, client = world(S, wanted)
    if supported is not None:
        ctx.provider_info['dpop_signing_alg_values_supported'] = supported
    alg = chosen(wanted, supported)
    method = S.str('method')
    headers = S.choice('headers', None, 'empty', 'some')
    if headers == 'empty':
        headers = {}
    elif headers == 'some':
        headers = {'Authorization': 'Basic x'}
    given = None if headers is None else dict(headers)
    endpoint = S.choice('endpoint', 'token_endpoint', 'userinfo_endpoint')
    now = S.now()
    out = S.call(dpop_header, ctx, endpoint, method, headers)
    S.check(out.ok, 'headers are made')
    if alg is None:
        S.check(out.value == given and not maker.made, 'without a common algorithm there is no proof')
        S.cover('none')
    else:
        check_proof(S, maker, out.value['dpop'], method, ctx.provider_info[endpoint], alg, now)
        rest = dict(out.value)
        rest.pop('dpop')
        S.check(rest == (given or {}), 'other headers are kept')
        S.cover('proof')


@contract('C21', targets=[DP + 'dpop_header', SV + 'get_headers', SV + 'get_request_parameters', SV + 'get_endpoint',
                          DP + 'add_support'])
def requests(S):
    """token request, user info request, token request: as they leave the services"""
    maker = KeyMaker()
    maker.install(S)
    alg = S.choice('alg', *ASYMMETRIC)
    ctx, client = world(S, [alg])
    ctx.provider_info['dpop_signing_alg_values_supported'] = [alg]
    key = 'session'
    ctx.state.create_state('https://op', key)
    ctx.state.store_item(AccessTokenResponse(access_token='at', token_type='Bearer'), 'token_response', key)
    now = S.now()
    S.assume(now > 1000)
    seen = []
    keys = []
    where = S.choice('endpoint from', 'provider', 'service', 'call')
    for name in ('accesstoken', 'userinfo', 'accesstoken'):
        if seen:
            now = S.later(S.int('pause', 0, 10 ** 6))
        srv = client._service[name]
        kw = {}
        url = ctx.provider_info[srv.endpoint_name]
        if where == 'service':
            url = 'https://op/own/' + name
            srv.endpoint = url
        elif where == 'call':
            url = S.str('url of call')
            kw['endpoint'] = url
        args = {'code': 'code', 'redirect_uri': 'https://rp/cb'} if name == 'accesstoken' else {}
        out = S.call(srv.get_request_parameters, request_args=args, state=key,
                     authn_method='client_secret_basic' if name == 'accesstoken' else 'bearer_header', **kw)
        S.check(out.ok, 'the request is made')
        info = out.value
        S.check(info['url'] == url, 'it goes to the endpoint')
        jti = check_proof(S, maker, info['headers']['dpop'], info['method'], url, alg, now)
        S.check(jti not in seen, 'every proof has its own identifier')
        seen.append(jti)
        S.check(info['headers']['Authorization'].startswith('Basic ' if name == 'accesstoken' else 'Bearer '),
                'client authentication is kept')
        keys.append(signed(info['headers']['dpop'])['key'])
    S.check(keys[0] is keys[1] and keys[1] is keys[2], 'one key for the tokens of one client')
    S.cover('done')


@contract('C21', targets=[DP + 'dpop_header'])
def two_clients(S):
    """clients do not share keys"""
    maker = KeyMaker()
    maker.install(S)
    algs = ['ES256']
    ctx, client = world(S, algs)
    ctx2 = make_context(S, issuer='https://op2', client_id='client2')
    ctx2.provider_info = {'issuer': 'https://op2', 'token_endpoint': 'https://op2/token',
                          'dpop_signing_alg_values_supported': ['ES256']}
    client2 = make_client(S, ctx2)
    make_service(S, AccessToken, client=client2)
    add_support(client2._service, algs)
    ctx.provider_info['dpop_signing_alg_values_supported'] = ['ES256']
    one = S.call(dpop_header, ctx, 'token_endpoint', 'POST').value['dpop']
    two = S.call(dpop_header, ctx2, 'token_endpoint', 'POST').value['dpop']
    S.check(signed(one)['key'] is not signed(two)['key'], 'each client has its own key')
    S.check(signed(two)['payload']['htu'] == 'https://op2/token', 'and its own URL')
    S.cover('done')


@contract('C21', targets=[DP + 'DPoPProof.verify'])
def verify(S):
    """a proof is one only with the right type and a signature"""
    maker = KeyMaker()
    maker.install(S)
    d = {'typ': S.str('typ'), 'alg': S.str('alg'), 'jwk': {'kty': 'EC'}, 'jti': 'x', 'htm': 'POST', 'htu': 'https://op',
         'iat': 1}
    out = S.call(DPoPProof(**d).verify)
    S.check(out.ok == (d['typ'] == 'dpop+jwt' and d['alg'] != 'none'), 'a proof has the type of a proof and is signed')
    S.cover('ok' if out.ok else 'refused')


@contract('C21', targets=[DP + 'dpop_header', DP + 'DPoPProof.create_header', DP + 'DPoPProof.verify_header'], kind='concrete',
          bounded='native executions with real keys of every algorithm the library can make')
def real_keys(S):
    alg = S.choice('alg', 'RS256', 'ES256', 'ES384', 'ES512', 'PS256', 'HS256', 'none')
    S.assume(alg not in ('RS256', 'PS256') or S.int('rare', lo=0, hi=20) == 0)
    ctx, client = world(S, [alg])
    ctx.provider_info['dpop_signing_alg_values_supported'] = ['RS256', 'ES256', 'ES384', 'ES512', 'PS256', 'HS256']
    method = S.str('method')
    out = S.call(dpop_header, ctx, 'token_endpoint', method, {})
    S.check(out.ok, 'headers are made')
    if alg in ('HS256', 'none'):
        S.check('dpop' not in out.value, 'no proof without a key pair')
    else:
        j = cryptojwt.jws.jws.factory(out.value['dpop'])
        head = j.jwt.headers
        S.check(head['alg'] == alg and head['typ'] == 'dpop+jwt', 'type and algorithm are declared')
        S.check('d' not in head['jwk'] and 'p' not in head['jwk'] and 'k' not in head['jwk'], 'only the public key is shown')
        got = S.call(j.verify_compact, keys=[key_from_jwk_dict(head['jwk'])], sigalg=alg)
        S.check(got.ok and got.value['htm'] == method and got.value['htu'] == ctx.provider_info['token_endpoint'],
                'the signature verifies with the key shown')
        p = S.call(DPoPProof().verify_header, out.value['dpop'])
        S.check(p.ok and p.value['htm'] == method and json.dumps(p.value['jwk']) == json.dumps(head['jwk']), 'the proof reads back')
    S.cover('done')
