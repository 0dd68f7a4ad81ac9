"""Assumed contract of the JOSE library: what a signed JWT string stands for.

A token is a string with a header algorithm, a payload and the fact whether its
signature verifies with the keys the key jar holds for the issuer named in it.
Everything above that (which claims are compared with what) is the real code."""
import cryptojwt.jws.jws
import cryptojwt.jwt
import oidcmsg.message
import oidcmsg.oidc
from cryptojwt.exception import BadSignature
from cryptojwt.jws.exception import NoSuitableSigningKeys
from cryptojwt.jws.exception import SignerAlgError
from oidcmsg.message import Message


class FakeKeyJar:
    """knows keys of some issuers"""

    def __init__(self, issuers):
        self.issuers = issuers

    def __contains__(self, iss):
        return iss in self.issuers

    def get_decrypt_key(self, owner=''):
        return []

    def get_jwt_verify_keys(self, jwt, **kwargs):
        iss = jwt.payload().get('iss')
        if not iss:
            return ['']
        if iss in self.issuers:
            return [iss]
        return []


class FakeJWT:
    def __init__(self, headers, claims):
        self.headers = headers
        self.claims = claims

    def payload(self):
        return self.claims


class FakeJWS:
    def __init__(self, token, alg):
        self.token = token
        self.alg = alg
        self.jwt = FakeJWT({'alg': token['alg']}, token['claims'])

    def verify_compact(self, txt, key):
        if self.token['alg'] == 'none':
            raise SignerAlgError('none not allowed')
        if self.alg and (self.token['alg'] not in self.alg if isinstance(self.alg, list)
                         else self.alg != self.token['alg']):
            raise SignerAlgError('Wrong signing algorithm')
        if not key:
            raise NoSuitableSigningKeys('none')
        self.token['verified_with'] = key
        if not self.token['good']:
            raise BadSignature()
        return self.token['claims']


def install(S, tokens):
    """tokens: list of {'jwt', 'alg', 'claims', 'good'}"""
    S.trust('cryptojwt: verify_compact accepts a token only if its signature verifies with one of '
            'the given keys and the algorithm asked for; the key jar returns keys of the issuer '
            'named in the token only; tokens are not encrypted')

    def jws_factory(jwt, alg=''):
        if isinstance(jwt, bytes):
            jwt = jwt.decode('utf-8')
        for t in tokens:
            if t['jwt'] == jwt:
                return FakeJWS(t, alg)
        return None

    def jwe_factory(jwt, **kwargs):
        return None

    def gather_keys(self, keyjar, jwt, header, **kwargs):
        if jwt.claims['iss'] in keyjar:
            return [jwt.claims['iss']]
        return []

    S.patch(oidcmsg.oidc, 'jws_factory', jws_factory)
    S.patch(oidcmsg.message, 'jws_factory', jws_factory)
    S.patch(oidcmsg.message, 'jwe_factory', jwe_factory)
    S.patch(cryptojwt.jwt, 'jws_factory', jws_factory)
    S.patch(cryptojwt.jwt, 'jwe_factory', jwe_factory)
    S.patch(Message, '_gather_keys', gather_keys)
    return tokens


class Key:
    """a key in a key jar: type, owner, what it may be used for"""

    def __init__(self, kty, owner, kid='', alg='', private=True):
        self.kty = kty
        self.owner = owner
        self.kid = kid
        self.alg = alg
        self.use = 'sig'
        self.crv = 'P-256' if kty == 'EC' else None
        self.private = private


class KeyRing:
    """assumed contract of the key jar: keys by owner and type"""

    def __init__(self, keys):
        self.keys = keys
        self.added = []

    def _pick(self, key_type, owner, kid=None):
        return [k for k in self.keys if k.owner == owner and (not key_type or k.kty == key_type)
                and (not kid or k.kid == kid)]

    def get_signing_key(self, key_type='', issuer_id='', kid=None, **kwargs):
        return self._pick(key_type, issuer_id, kid)

    def get_encrypt_key(self, key_type='', issuer_id='', kid=None, **kwargs):
        return self._pick(key_type, issuer_id, kid)

    def get(self, key_use, key_type='', issuer_id='', kid=None, **kwargs):
        return self._pick(key_type, issuer_id, kid)

    def get_issuer_keys(self, issuer_id):
        return self._pick('', issuer_id)

    def add_symmetric(self, issuer_id, key, usage=None):
        self.added.append((issuer_id, key))

    def __contains__(self, issuer_id):
        return any(k.owner == issuer_id for k in self.keys)

    def __len__(self):
        owners = []
        for k in self.keys:
            if k.owner not in owners:
                owners.append(k.owner)
        return len(owners)


SIGNED = []
PAD = ['']


class Signer:
    """assumed contract of signing: the token carries this payload, this algorithm, this key"""

    def __init__(self, msg=None, alg='', **kwargs):
        self.msg = msg
        self.alg = alg
        self.kwargs = kwargs

    def sign_compact(self, keys=None, **kwargs):
        if self.alg != 'none' and not keys:
            raise NoSuitableSigningKeys('none')
        token = 'signed.token.%d' % len(SIGNED) + PAD[0]
        SIGNED.append({'token': token, 'payload': self.msg, 'alg': self.alg,
                       'headers': self.kwargs, 'extra': kwargs,
                       'key': keys[0] if keys and self.alg != 'none' else None})
        return token


def install_signer(S, pad=''):
    S.trust('cryptojwt: JWS(payload, alg).sign_compact(keys) gives a token with this payload and algorithm, '
            'signed with the first of the keys; KeyJar.get_signing_key returns the private keys of this type '
            'that the named owner ("" is this client) has')
    while SIGNED:
        SIGNED.pop()
    PAD[0] = pad
    S.patch(oidcmsg.message, 'JWS', Signer)
    S.patch(cryptojwt.jwt, 'JWS', Signer)
    S.patch(cryptojwt.jws.jws, 'JWS', Signer)


def signed(token):
    """the record of the signed token with this text"""
    for t in SIGNED:
        if t['token'] == token:
            return t
    return None
