"""C27 restoring saved state gives the state that was saved."""
import json

from dv.api import contract

from contracts.common import free_key, make_context

from oidcmsg.message import Message
from oidcmsg.oidc import IdToken
from oidcmsg.oidc import ProviderConfigurationResponse
from oidcmsg.oidc import RegistrationResponse
from oidcrp.service_context import ServiceContext
from oidcrp.state_interface import StateInterface

SI = 'oidcrp.state_interface.StateInterface'
SCX = 'oidcrp.service_context.ServiceContext'
KINDS = ('nonce', 'logout state', 'session id', 'subject id')


class Keys:
    """assumed contract of the key jar: what is dumped can be loaded"""

    def __init__(self):
        self.content = {}

    def add_symmetric(self, issuer_id, key, usage=None):
        self.content[issuer_id] = key

    def dump(self, exclude_attributes=None):
        return {'content': self.content}

    def load(self, item, **kwargs):
        self.content = item['content']
        return self


def through_json(x):
    return json.loads(json.dumps(x))


@contract('C27', targets=[SI + '.get_item', SI + '.get_iss', SI + '.get_state_by_x', SI + '.store_item',
                          SI + '.create_state'])
def store(S):
    """the state store"""
    si = StateInterface()
    a, b = free_key(S, 'a'), 'second'
    iss = S.str('iss')
    out = S.call(si.create_state, iss, a)
    S.assume(out.ok)
    value = S.str('value', no=('"', '\\'))
    S.assume(value != '')
    kind = S.choice('kind', *KINDS)
    item = Message(access_token=value, scope=['openid', 'x'], __expires_at=S.int('exp'))
    item['__verified_id_token'] = IdToken(iss=iss, sub=value, aud=['me'], exp=S.int('exp2'), iat=1)
    si.store_item(item, 'token_response', a)
    si.store_x2state(value, a, kind)
    if S.flag('second'):
        out = S.call(si.create_state, S.str('iss2'), b)
        S.assume(out.ok and a != b)
        si.store_x2state('v2', b, S.choice('kind2', 'nonce', 'subject id'))
    new = StateInterface()
    out = S.call(through_json, si.dump())
    S.check(out.ok, 'what is dumped can be written')
    new.load(out.value)
    S.check(S.same(new._db, si._db), 'every entry is restored')
    got, had = S.call(new.get_iss, a), S.call(si.get_iss, a)
    S.check(got.ok == had.ok and (not got.ok or got.value == had.value), 'the issuer of a session is restored')
    one = S.call(si.get_item, Message, 'token_response', a)
    two = S.call(new.get_item, Message, 'token_response', a)
    S.check(one.ok == two.ok and (not one.ok or one.value.to_dict() == two.value.to_dict()), 'its content is restored')
    k = S.choice('asked', *KINDS)
    one = S.call(si.get_state_by_x, value, k)
    two = S.call(new.get_state_by_x, value, k)
    S.check(one.ok == two.ok and (not one.ok or one.value == two.value), 'what leads to it is restored')
    S.cover('restored')


@contract('C27', targets=[SCX + '.__init__', SCX + '.parameter'])
def context(S):
    """every attribute of the service context"""
    S.trust('cryptojwt: a key jar that loads what another dumped has the same keys')
    parameter = dict(ServiceContext.parameter)
    parameter['keyjar'] = Keys
    S.patch(ServiceContext, 'parameter', parameter)
    text = S.str('text')
    other = S.str('other')
    num = S.int('num')
    info = {'issuer': text, 'token_endpoint': other, 'grant_types_supported': ['a', 'b'], 'claims': {'x': num}}
    reg = {'client_id': text, 'client_secret': other, 'client_secret_expires_at': num, 'redirect_uris': [text],
           'registration_access_token': other}
    attrs = {
        'add_on': {'pkce': {'code_challenge_length': num, 'code_challenge_method': text}},
        'allow': {'missing_kid': S.flag('missing_kid'), 'issuer_mismatch': S.flag('issuer_mismatch')},
        'args': {'x': text}, 'base_url': text,
        'behaviour': {'scope': [text, other], 'response_types': ['code'], 'verify_args': {'skew': num}},
        'callback': {'code': text}, 'client_id': other, 'client_preferences': {'application_type': text},
        'client_secret': text, 'client_secret_expires_at': num, 'clock_skew': num, 'config': {'issuer': text},
        'hash_seed': text.encode('utf-8'), 'hash2issuer': {'h': text}, 'httpc_params': {'verify': S.flag('verify')},
        'issuer': text, 'kid': {'sig': {'RSA': text}, 'enc': {}}, 'post_logout_redirect_uris': [other],
        'redirect_uris': [text, other], 'requests_dir': other, 'register_args': {'client_name': text},
        'verify_args': {'x': text}, 'jwks_uri': text, 'registration_access_token': other}
    ctx = make_context(S)
    ctx.keyjar = Keys()
    ctx.keyjar.content[''] = text
    for k in attrs:
        setattr(ctx, k, attrs[k])
    form = S.choice('metadata', 'configured', 'received', 'none')
    if form == 'configured':
        ctx.provider_info, ctx.registration_response = info, reg
    elif form == 'received':
        ctx.provider_info, ctx.registration_response = ProviderConfigurationResponse(**info), RegistrationResponse(**reg)
    ctx.state.create_state(text, 'session')
    out = S.call(ctx.dump)
    S.check(out.ok, 'the context can be dumped')
    out = S.call(through_json, out.value)
    S.check(out.ok, 'what is dumped can be written')
    new = ServiceContext(keyjar=Keys())
    out = S.call(new.load, out.value)
    S.check(out.ok, 'it can be loaded')
    for k in attrs:
        S.check(getattr(new, k, None) == attrs[k], k + ' is restored')
    for k in ('provider_info', 'registration_response'):
        one, two = getattr(ctx, k), getattr(new, k)
        S.check(isinstance(two, type(one)), k + ' is what it was')
        S.check(one.keys() == two.keys(), k + ' has the same parameters')
        for p in one.keys():
            S.check(one[p] == two[p], k + ' is restored')
    S.check(S.same(new.state._db, ctx.state._db), 'the sessions are restored')
    S.check(new.keyjar.content == ctx.keyjar.content, 'the keys are restored')
    S.cover('restored')
