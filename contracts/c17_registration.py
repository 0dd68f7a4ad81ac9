"""C17 dynamic registration, C18 issuer specific callbacks."""
import json

from dv.api import contract

from contracts import tokens
from contracts.c07_http import Http, Response
from contracts.common import make_client, make_context, make_handler, make_service

from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import factory
from cryptojwt.key_jar import KeyJar
from cryptojwt.key_jar import build_keyjar
from oidcmsg.message import Message
from oidcmsg.oidc import RegistrationResponse
from oidcrp.client_auth import ClientSecretJWT
from oidcrp.exception import ConfigurationError
from oidcrp.oidc import access_token as oidc_at
from oidcrp.oidc import registration
from oidcrp.oidc.registration import add_callbacks
from oidcrp.oidc.registration import create_callbacks
from oidcrp.service_context import ServiceContext

REG = 'oidcrp.oidc.registration.'
RH = 'oidcrp.rp_handler.RPHandler.'


class Secret:
    """a key made from a client secret"""
    kty = 'oct'

    def __init__(self, value):
        self.key = value.encode('utf-8')


class Bundle:
    def __init__(self, keys):
        self.content = keys

    def keys(self, update=True):
        return list(self.content)

    def get(self, typ='', only_active=True):
        return list(self.content)

    def remove(self, key):
        self.content = [k for k in self.content if k is not key]


class Jar:
    """a key jar that remembers what was put into it"""

    def __init__(self):
        self.owners = ['']
        self.added = []
        self.bundles = {'': []}

    def __contains__(self, issuer_id):
        return issuer_id in self.owners

    def __getitem__(self, issuer_id):
        return self.bundles[issuer_id]

    def export_jwks(self, private=False, issuer_id=''):
        return {'keys': [issuer_id, private]}

    def import_jwks(self, jwks, issuer_id):
        self.owners.append(issuer_id)
        self.added.append(('jwks', issuer_id, jwks))
        self.bundles[issuer_id] = [Bundle(list(b.content)) for b in self.bundles['']]

    def add_symmetric(self, issuer_id, key, usage=None):
        self.added.append(('symmetric', issuer_id, key))
        if issuer_id not in self.bundles:
            self.bundles[issuer_id] = []
        self.bundles[issuer_id].append(Bundle([Secret(key)]))

    def secrets(self, issuer_id):
        return [k.key for b in self.bundles[issuer_id] for k in b.content]


def world(S, **attrs):
    iss = 'https://op.example.org'
    ctx = make_context(S, issuer=iss, keyjar=Jar(), base_url='https://rp.example.org', hash_seed=b'seed',
                       provider_info={'issuer': iss, 'registration_endpoint': 'https://op.example.org/reg'}, **attrs)
    client = make_client(S, ctx)
    srv = make_service(S, registration.Registration, client=client)
    make_service(S, oidc_at.AccessToken, client=client)
    return ctx, client, srv


def response(S):
    """any registration response"""
    resp = {'client_id': S.str('client_id')}
    if S.flag('secret'):
        resp['client_secret'] = S.str('client_secret')
        if S.flag('expires'):
            resp['client_secret_expires_at'] = S.int('client_secret_expires_at', lo=0)
    if S.flag('access'):
        resp['registration_access_token'] = S.str('registration_access_token')
        resp['registration_client_uri'] = S.str('registration_client_uri')
    if S.flag('method'):
        resp['token_endpoint_auth_method'] = S.str('method registered')
    if S.flag('alg'):
        resp['id_token_signed_response_alg'] = S.str('alg registered')
    if S.flag('auth time'):
        resp['require_auth_time'] = S.bool('auth time required')
        resp['default_max_age'] = S.int('max age registered', lo=0)
    return resp


def registered(S, ctx, client, resp, old, asked):
    cid = resp['client_id']
    S.check(ctx.client_id == cid and client.get_client_id() == cid, 'the client identifier is the registered one')
    if 'client_secret' in resp:
        S.check(ctx.client_secret == resp['client_secret'], 'the secret is the registered one')
        S.check(ctx.client_secret_expires_at == resp.get('client_secret_expires_at', 0),
                'the expiry is that of the registered secret')
        S.check(('symmetric', '', resp['client_secret']) in ctx.keyjar.added and
                ('symmetric', cid, resp['client_secret']) in ctx.keyjar.added, 'the secret is a key of this client')
    else:
        S.check(ctx.client_secret == old['secret'] and ctx.client_secret_expires_at == old['expires'],
                'no secret is made up')
        S.check(all(a[0] != 'symmetric' for a in ctx.keyjar.added), 'no secret becomes a key')
    for a in ctx.keyjar.added:
        S.check(a[1] in ('', cid), 'keys are added for this client only')
    if 'registration_access_token' in resp:
        S.check(ctx.registration_access_token == resp['registration_access_token'],
                'the registration access token is the registered one')
    for k in resp:
        S.check(ctx.registration_response[k] == resp[k], 'the response is kept')
    for k in asked:
        S.check(ctx.behaviour[k] == (resp[k] if k in resp else asked[k]),
                'what was registered is used, what was not said stays as requested')
    S.check(all(k in asked for k in ctx.behaviour), 'nothing is made up')


@contract('C17', targets=[REG + 'Registration.update_service_context'])
def response_is_used(S):
    """any response, any earlier state"""
    ctx, client, srv = world(S)
    old = {'secret': '', 'expires': 0}
    if S.flag('secret before'):
        old = {'secret': S.str('old_secret'), 'expires': S.int('old_expires', lo=1)}
        ctx.keyjar.add_symmetric('', old['secret'])
        ctx.keyjar.added = []
    ctx.client_secret = old['secret']
    ctx.client_secret_expires_at = old['expires']
    asked = {'token_endpoint_auth_method': S.str('method asked'), 'id_token_signed_response_alg': S.str('alg asked'),
             'scope': ['openid', S.str('scope')], 'require_auth_time': S.bool('auth time asked'),
             'default_max_age': S.int('max age asked', lo=0)}
    ctx.behaviour = dict(asked)
    resp = response(S)
    out = S.call(srv.update_service_context, RegistrationResponse(**resp))
    S.check(out.ok, 'an accepted response is used')
    registered(S, ctx, client, resp, old, asked)
    S.check(client._service['accesstoken'].get_authn_method() == ctx.behaviour['token_endpoint_auth_method'],
            'the client authenticates as registered')
    if 'client_secret' in resp:
        for owner in ('', resp['client_id']):
            S.check(all(k == resp['client_secret'].encode('utf-8') for k in ctx.keyjar.secrets(owner)),
                    'a secret that was replaced is no key of this client any more')
        S.cover('secret')
    else:
        S.cover('no secret')


@contract('C17', targets=[REG + 'Registration.update_service_context'], kind='concrete',
          bounded='native executions with real key jars and signatures, up to four registrations in a row')
def registered_again(S):
    """after every registration the client signs with the secret it got last"""
    jar = KeyJar()
    own = S.flag('own keys')
    if own:
        jar = build_keyjar([{'type': 'EC', 'crv': 'P-256', 'use': ['sig']}])
    iss = 'https://op.example.org'
    ctx = ServiceContext(keyjar=jar, issuer=iss, config={})
    ctx.provider_info = {'issuer': iss, 'token_endpoint': iss + '/token'}
    client = make_client(S, ctx)
    srv = make_service(S, registration.Registration, client=client)
    token = make_service(S, oidc_at.AccessToken, client=client)
    others = [k.kid for k in jar.get_signing_key('EC', '')]
    secret = None
    for n in range(S.int('registrations', 1, 4)):
        cid = S.choice('id %d' % n, 'one', 'two', 'three')
        args = {'client_id': cid}
        if S.flag('secret %d' % n) or n == 0:
            secret = S.choice('which %d' % n, 'a', 'b', 'c') * 40
            args['client_secret'] = secret
        out = S.call(srv.update_service_context, RegistrationResponse(**args))
        S.check(out.ok, 'an accepted response is used')
        req = Message()
        out = S.call(ClientSecretJWT().construct, req, service=token, algorithm='HS256',
                     authn_endpoint='token_endpoint')
        S.check(out.ok, 'the client can authenticate')
        jws = factory(req['client_assertion'])
        out = S.call(jws.verify_compact, req['client_assertion'],
                     [SYMKey(key=secret, use='sig', kid=jws.jwt.headers.get('kid', ''))])
        S.check(out.ok and out.value['iss'] == cid, 'the assertion is signed with the secret received last')
        S.check([k.kid for k in jar.get_signing_key('EC', '')] == others, 'its other keys stay')
        S.cover('registered')


@contract('C17', targets=[RH + 'do_client_registration', 'oidcrp.util.load_registration_response',
                          'oidcrp.oauth2.Client.do_request', 'oidcrp.service.Service.get_request_parameters',
                          REG + 'Registration.oidc_post_construct', REG + 'add_jwks_uri_or_jwks',
                          REG + 'add_callback_uris', REG + 'Registration.add_client_behaviour_preference'])
def exchange(S):
    """from configuration to registered client"""
    tokens.install(S, [])
    uri = S.str('uri')
    name = S.str('client_name')
    rtype = S.choice('response type', 'code', 'code id_token', 'id_token')
    config = {'redirect_uris': [uri], 'client_preferences': {'response_types': [rtype]}}
    known = S.flag('registered already')
    ctx, client, srv = world(S, config=config, register_args={'redirect_uris': [uri]}, redirect_uris=[uri],
                             client_preferences={'client_name': name, 'response_types': [rtype]},
                             behaviour={'response_types': [rtype]}, client_id='me' if known else '')
    if S.flag('jwks_uri'):
        ctx.jwks_uri = 'https://rp.example.org/jwks.json'
    srv.endpoint = ctx.provider_info['registration_endpoint']
    kind = S.choice('answer', 'ok', 'error', 'no id', 'failure')
    resp = {'client_id': S.str('client_id'), 'client_secret': S.str('client_secret'),
            'client_secret_expires_at': S.int('client_secret_expires_at', lo=0), 'redirect_uris': [uri]}
    status, body = 201, resp
    if kind == 'error':
        status, body = 400, {'error': 'invalid_redirect_uri'}
    elif kind == 'no id':
        body = {'client_secret': resp['client_secret'], 'redirect_uris': [uri]}
    http = Http(Response(status, {'content-type': 'application/json'}, json.dumps(body)),
                fail=OSError('no route') if kind == 'failure' else None)
    client.http = http
    rph = make_handler(S)
    args = None
    if S.flag('arguments'):
        args = {'contacts': ['ops@example.org']}
    beh = None
    if S.flag('behaviour'):
        beh = {'client_name': S.str('other name'), 'no_registration_parameter': 'x'}
    out = S.call(rph.do_client_registration, client, 'op', request_args=args, behaviour_args=beh)
    if known:
        S.check(out.ok and http.sent == [] and ctx.client_id == 'me' and ctx.registration_response == {},
                'a registered client is not registered again')
        S.cover('static')
        return
    S.check(len(http.sent) == 1 and http.sent[0][0] == 'https://op.example.org/reg' and http.sent[0][1] == 'POST',
            'one request to the registration endpoint')
    sent = json.loads(http.sent[0][2]['data'])
    S.check(sent['redirect_uris'] == [uri], 'the configured redirect URIs are registered')
    S.check(sent['client_name'] == (name if beh is None else beh['client_name']), 'the configured metadata is registered')
    S.check(sent['response_types'] == [rtype], 'the configured metadata is registered')
    grants = {'code': ['authorization_code'], 'id_token': ['implicit'],
              'code id_token': ['authorization_code', 'implicit']}[rtype]
    S.check(sorted(sent['grant_types']) == grants, 'the grant types fit the response types')
    S.check('jwks_uri' not in sent or 'jwks' not in sent, 'keys are given in one way')
    if 'jwks_uri' in sent:
        S.check(sent['jwks_uri'] == 'https://rp.example.org/jwks.json', 'the keys of this relying party')
    S.check('no_registration_parameter' not in sent, 'only registration parameters are sent')
    if args is not None:
        S.check(sent['contacts'] == ['ops@example.org'], 'arguments of the caller are sent')
    if kind == 'ok':
        S.check(out.ok, 'a good response is accepted')
        S.check(ctx.client_id == resp['client_id'] and ctx.client_secret == resp['client_secret'] and
                ctx.client_secret_expires_at == resp['client_secret_expires_at'], 'the client is what was registered')
        S.check(rph.hash2issuer == {'op': 'https://op.example.org'}, 'the issuer is remembered')
        S.cover('registered')
    else:
        S.check(not out.ok, 'a refusal is reported')
        S.check(ctx.client_id == '' and ctx.client_secret == '' and ctx.client_secret_expires_at == 0 and
                ctx.registration_response == {} and ctx.keyjar.added == [] and
                ctx.behaviour == {'response_types': [rtype]}, 'a refused registration leaves the client as it was')
        S.cover('refused')


@contract('C17', targets=[REG + 'add_jwks_uri_or_jwks', REG + 'Registration.oidc_post_construct',
                          'oidcrp.service.Service.construct'])
def keys_of_the_client(S):
    """the keys the provider is told to use for this client: those of the caller, the context or the configuration"""
    names = ('jwks_uri', 'jwks')
    uris = {w: S.str(w + ' uri', nonempty=True) for w in ('call', 'context', 'config')}
    sets = {w: {'keys': [{'kty': 'oct', 'k': S.str(w + ' key')}]} for w in ('call', 'context', 'config')}
    have = {w: S.choice(w + ' has', (), ('jwks_uri',), ('jwks',), names) for w in ('call', 'context', 'config')}
    config = {'redirect_uris': ['https://rp/cb']}
    for n in have['config']:
        config[n] = uris['config'] if n == 'jwks_uri' else sets['config']
    ctx, client, srv = world(S, config=config, redirect_uris=['https://rp/cb'])
    ctx.jwks_uri = uris['context'] if 'jwks_uri' in have['context'] else ''
    ctx.jwks = sets['context'] if 'jwks' in have['context'] else {}
    args = {'redirect_uris': ['https://rp/cb']}
    for n in have['call']:
        args[n] = uris['call'] if n == 'jwks_uri' else sets['call']
    out = S.call(srv.construct, dict(args))
    S.check(out.ok, 'a registration request is made')
    req = out.value
    S.check('jwks_uri' not in req or 'jwks' not in req, 'keys are given in one way')
    if have['call'] == ('jwks',) and 'jwks_uri' in have['context'] and 'jwks_uri' in req:
        # "If a Client can use jwks_uri, it MUST NOT use jwks."
        src = 'context'
    elif have['call']:
        src = 'call'
    elif 'jwks_uri' in have['context'] or 'jwks_uri' in have['config']:
        src = 'context' if 'jwks_uri' in have['context'] else 'config'
    elif 'jwks' in have['context'] or 'jwks' in have['config']:
        src = 'context' if 'jwks' in have['context'] else 'config'
    else:
        S.check('jwks_uri' not in req and 'jwks' not in req, 'no keys are made up')
        S.cover('none')
        return
    if 'jwks_uri' in have[src]:
        S.check(req['jwks_uri'] == uris[src], 'the place of the keys is the one given')
        S.cover('by reference')
    else:
        S.check(req['jwks'] == sets[src], 'the keys are the ones given')
        S.cover('by value')


RESPONSE_TYPES = ('code', 'id_token', 'id_token token', 'code id_token', 'code token', 'code id_token token')
PATHS = {'code': '/authz_cb/', 'implicit': '/authz_im_cb/', 'form_post': '/authz_fp_cb/', 'request_uris': '/req_uri/',
         'backchannel_logout_uri': '/bc_logout/', 'frontchannel_logout_uri': '/fc_logout/'}


def uris_of(cb):
    res = []
    for k in cb:
        if k == '__hex':
            continue
        if isinstance(cb[k], list):
            res.extend(cb[k])
        else:
            res.append(cb[k])
    return res


@contract('C18', targets=[REG + 'create_callbacks'])
def two_issuers(S):
    """any two issuers, the same relying party"""
    a, b = S.str('iss_a'), S.str('iss_b')
    base = S.str('base_url')
    seed = S.str('seed').encode()
    kinds = {}
    for k in ('code', 'implicit', 'form_post', 'request_uris', 'backchannel_logout_uri', 'frontchannel_logout_uri'):
        if S.flag(k):
            kinds[k] = True
    one = S.call(create_callbacks, a, seed, base, **kinds)
    two = S.call(create_callbacks, b, seed, base, **kinds)
    S.check(one.ok and two.ok, 'callbacks are made for every issuer')
    ca, cb = one.value, two.value
    for k in kinds:
        S.check(ca[k] == base + PATHS[k] + ca['__hex'], 'under the base URL, with the value of the issuer')
    for u in uris_of(ca):
        S.check(u.startswith(base + '/') and u.endswith('/' + ca['__hex']), 'under the base URL, with the value of the issuer')
    S.check(all(k in ca for k in kinds), 'every kind of callback asked for is made')
    S.check('post_logout_redirect_uris' not in ca or 'backchannel_logout_uri' in kinds or
            'frontchannel_logout_uri' in kinds, 'only those asked for')
    if a == b:
        S.check(ca == cb, 'the same issuer gets the same callbacks')
        S.cover('same')
    else:
        S.check(ca['__hex'] != cb['__hex'], 'two issuers never share a value')
        for k in kinds:
            S.check(ca[k] != cb[k], 'two issuers never share a callback')
        S.cover('different')


@contract('C18', targets=[REG + 'create_callbacks'])
def seed_matters(S):
    """another seed, another value: it cannot be computed from the issuer alone"""
    iss, base = S.str('iss'), 'https://rp.example.org'
    s1, s2 = S.str('seed1'), S.str('seed2')
    S.assume(s1 != s2)
    one = S.call(create_callbacks, iss, s1.encode(), base, code=True)
    two = S.call(create_callbacks, iss, s2.encode(), base, code=True)
    S.check(one.ok and two.ok and one.value['code'] != two.value['code'], 'the value depends on the secret seed')
    S.cover('done')


@contract('C18', targets=[REG + 'add_callbacks', REG + '_in_config_or_client_preferences', REG + '_cmp'])
def callbacks_of_a_client(S):
    """what a client needs is there, and leads back"""
    iss = S.str('iss')
    ctx, client, srv = world(S)
    ctx.issuer = iss
    rtype = S.choice('response type', *RESPONSE_TYPES)
    where = S.choice('where', 'config', 'preferences')
    prefs = {}
    config = {}
    target = config if where == 'config' else prefs
    target['response_types'] = [rtype] if S.flag('list') else rtype
    if S.flag('form_post'):
        target['form_post_usable'] = True
    logout = S.choice('logout', 'none', 'frontchannel', 'backchannel')
    able = S.flag('provider is able')
    if logout != 'none':
        target[logout + '_logout_usable'] = True
        if able:
            ctx.provider_info[logout + '_logout_supported'] = True
    config['client_preferences'] = prefs
    ctx.config = config
    other = S.str('other')
    S.assume(other != iss)
    out0 = S.call(add_callbacks, make_context(S, issuer=other, base_url=ctx.base_url, config=config,
                                              hash2issuer=ctx.hash2issuer))
    out = S.call(add_callbacks, ctx)
    S.check(out.ok and out0.ok, 'callbacks are made')
    cb = ctx.callback
    S.check(ctx.hash2issuer[cb['__hex']] == iss, 'the value leads back to exactly that issuer')
    S.check(len(ctx.hash2issuer) == 2 and other in ctx.hash2issuer.values(), 'also with several issuers')
    need = 'code' if rtype == 'code' else 'implicit'
    S.check(need in cb and cb[need] in cb['redirect_uris'], 'there is a redirect URI for the response type')
    S.check(('form_post' in cb) == ('form_post_usable' in target), 'form post if wanted')
    for k in ('frontchannel', 'backchannel'):
        S.check((k + '_logout_uri' in cb) == (logout == k and able), 'logout if wanted and possible')
    for u in uris_of(cb):
        S.check(u.startswith('https://rp.example.org/') and u.endswith(cb['__hex']), 'every URI is specific to the issuer')
    S.cover('done')


@contract('C18', targets=[REG + 'add_callback_uris'])
def registered_callbacks(S):
    """the registration request names the callbacks of this issuer unless others are configured"""
    iss = S.str('iss')
    own, asked = S.str('own'), S.str('asked')
    ctx, client, srv = world(S)
    ctx.issuer = iss
    ctx.config = {'client_preferences': {'response_types': ['code']}}
    if S.flag('configured'):
        ctx.register_args = {'redirect_uris': [own]}
    req = {}
    if S.flag('asked for'):
        req['redirect_uris'] = [asked]
    was_asked = 'redirect_uris' in req
    out = S.call(registration.add_callback_uris, request_args=req, service=srv)
    S.check(out.ok, 'callbacks are registered')
    uris = out.value[0]['redirect_uris']
    if was_asked:
        S.check(uris == [asked], 'those of the caller')
        S.cover('asked')
    elif ctx.register_args:
        S.check(uris == [own], 'those configured')
        S.cover('own')
    else:
        S.check(uris == [ctx.callback['code']] and ctx.hash2issuer[ctx.callback['__hex']] == iss, 'those made for the issuer')
        S.cover('made')


@contract('C18', targets=['oidcrp.service_context.ServiceContext.generate_request_uris'])
def request_uri_of_the_issuer(S):
    """request object references: any two issuers"""
    a, b = S.str('iss_a'), S.str('iss_b')
    base = 'https://rp.example.org'
    path = S.choice('path', 'requests', '/requests')
    res = []
    for iss in (a, b):
        ctx = make_context(S, issuer='', base_url=base)
        if S.flag('info ' + ('a' if iss is a else 'b')):
            ctx.provider_info = {'issuer': iss}
        else:
            ctx.issuer = iss
        out = S.call(ctx.generate_request_uris, path)
        S.check(out.ok and len(out.value) == 1 and out.value[0].startswith(base + '/requests/'), 'one URI under the base URL')
        res.append(out.value[0])
    S.check((res[0] == res[1]) == (a == b), 'two issuers never share a URI')
    S.cover('done')


@contract('C18', targets=['oidcrp.service_context.ServiceContext.__init__'])
def seed_is_secret(S):
    """the seed is the configured one or a fresh random value"""
    conf = {}
    seed = S.str('seed')
    configured = S.flag('configured')
    if configured:
        conf['hash_seed'] = seed
    ctx = ServiceContext(keyjar=Jar(), config=conf)
    if configured:
        S.check(ctx.hash_seed == seed.encode(), 'the configured seed')
        S.cover('configured')
    else:
        S.check(S.is_random(ctx.hash_seed.decode()), 'a random seed')
        S.cover('random')
