"""C26 providers served by one handler are kept apart."""
import copy
import json

import oidcmsg.context
import oidcrp.rp_handler

from dv.api import contract

from contracts import tokens
from contracts.c07_http import Response

from oidcmsg.oidc import ProviderConfigurationResponse
from oidcrp.oidc import DEFAULT_SERVICES
from oidcrp.rp_handler import RPHandler

RH = 'oidcrp.rp_handler.RPHandler.'
BASE = 'https://rp.example.org'


class Jar:
    """stands for a key jar: which keys are held for whom"""

    def __init__(self):
        self.keys = {}
        self.httpc_params = {}

    def add(self, issuer_id, key):
        if issuer_id not in self.keys:
            self.keys[issuer_id] = []
        self.keys[issuer_id].append(key)

    def add_symmetric(self, issuer_id, key, usage=None):
        self.add(issuer_id, key)

    def load_keys(self, issuer_id, jwks_uri='', jwks=None, replace=False):
        self.add(issuer_id, jwks_uri)

    def export_jwks(self, private=False, issuer_id=''):
        return {'keys': list(self.keys.get(issuer_id, []))}

    def export_jwks_as_json(self, private=False, issuer_id=''):
        return json.dumps({'keys': self.keys.get(issuer_id, [])})

    def import_jwks(self, jwks, issuer_id):
        for key in jwks['keys']:
            self.add(issuer_id, key)

    def import_jwks_as_json(self, jwks, issuer_id):
        self.import_jwks(json.loads(jwks), issuer_id)

    def dump(self, exclude=None):
        return copy.deepcopy(self.keys)

    def load(self, keys):
        for owner in keys:
            for key in keys[owner]:
                self.add(owner, key)

    def __contains__(self, owner):
        return owner in self.keys

    def __len__(self):
        return len(self.keys)


class Web:
    """the providers, as the HTTP library sees them"""

    def __init__(self, answers):
        self.answers = answers
        self.sent = []
        self.registered = 0

    def __call__(self, url, method='GET', **kwargs):
        self.sent.append((url, method))
        if method == 'POST':
            self.registered += 1
        for start in self.answers:
            if url.startswith(start):
                return Response(200, {'content-type': 'application/json'}, json.dumps(self.answers[start]))
        return Response(404, {'content-type': 'text/plain'}, 'no')


def metadata(iss, base, **more):
    md = {'issuer': iss, 'authorization_endpoint': base + '/authz', 'token_endpoint': base + '/token',
          'userinfo_endpoint': base + '/userinfo', 'registration_endpoint': base + '/registration',
          'jwks_uri': base + '/jwks', 'response_types_supported': ['code'], 'subject_types_supported': ['public'],
          'grant_types_supported': ['authorization_code'], 'id_token_signing_alg_values_supported': ['RS256'],
          'scopes_supported': ['openid'], 'token_endpoint_auth_methods_supported': ['client_secret_basic']}
    md.update(more)
    return md


def static(S, name, iss):
    """configuration of a client registered by hand"""
    return {'issuer': iss, 'client_id': S.str('id_' + name), 'client_secret': S.str('secret_' + name),
            'redirect_uris': [BASE + '/cb/' + name], 'behaviour': {'response_types': ['code'], 'scope': ['openid', name]},
            'client_preferences': {'response_types': ['code'], 'scope': ['openid']},
            'callback': {'code': BASE + '/cb/' + name}, 'request_args': {'claims': {'id_token': {name: None}}},
            'allow': {'missing_kid': True}, 'hash_seed': 'seed' + name,
            'provider_info': metadata(iss, 'https://' + name)}


def dynamic():
    """configuration for providers that are not known beforehand"""
    return {'redirect_uris': [BASE + '/cb'], 'behaviour': {'response_types': ['code', 'id_token'], 'scope': ['openid']},
            'client_preferences': {'response_types': ['code', 'id_token'], 'scope': ['openid', 'email'],
                                   'token_endpoint_auth_method': ['client_secret_basic', 'client_secret_post'],
                                   'userinfo_signed_response_alg': 'ES256'},
            'contacts': ['ops@example.org'], 'allow': {}}


def services():
    s = copy.deepcopy(DEFAULT_SERVICES)
    s['webfinger'] = {'class': 'oidcrp.oidc.webfinger.WebFinger'}
    s['authorization']['kwargs'] = {'conf': {'request_args': {'claims': {'userinfo': {'email': None}}}}}
    return s


def handler(S, configs, web):
    S.trust('cryptojwt KeyJar: keys are held per owner; dump and load copy them')
    S.patch(oidcmsg.context, 'KeyJar', Jar)
    tokens.install(S, [])
    own = Jar()
    own.add('', 'signing key')
    own.add(BASE, 'signing key')
    return RPHandler(BASE, client_configs=configs, services=services(), keyjar=own, hash_seed='seed',
                     http_lib=web, httpc_params={'verify': True}, jwks_path='jwks.json')


def contents(client):
    """all that makes up a client, for comparison"""
    ctx = client.client_get('service_context')
    services = client.client_get('services')
    return [{k: v for k, v in ctx.__dict__.items() if k not in ('keyjar', 'state')},
            ctx.keyjar.keys, ctx.state._db,
            [(n, s.endpoint, s.conf, s.default_request_args) for n, s in services.items()]]


def disturb(client):
    """whatever a client may do to what it holds"""
    ctx = client.client_get('service_context')
    for name in ('behaviour', 'provider_info', 'callback', 'register_args', 'client_preferences', 'allow', 'config',
                 'registration_response', 'hash2issuer', 'args', 'add_on'):
        getattr(ctx, name)['disturbed'] = name
    ctx.behaviour['scope'].append('disturbed')
    ctx.client_preferences['scope'].append('disturbed')
    ctx.redirect_uris.append('disturbed')
    ctx.post_logout_redirect_uris.append('disturbed')
    ctx.kid['sig']['disturbed'] = ['x']
    ctx.client_id = 'disturbed'
    ctx.client_secret = 'disturbed'
    ctx.keyjar.add('', 'disturbed')
    ctx.keyjar.add('https://a', 'disturbed')
    ctx.state.create_state('https://disturbed')
    for srv in client.client_get('services').values():
        srv.endpoint = 'disturbed'
        srv.default_request_args['disturbed'] = 'x'
        srv.pre_construct.append('disturbed')
        srv.post_construct.append('disturbed')
        srv.construct_extra_headers.append('disturbed')


def is_own(S, client, conf, iss):
    ctx = client.client_get('service_context')
    for name in ('client_id', 'client_secret', 'redirect_uris', 'behaviour', 'provider_info', 'issuer',
                 'client_preferences', 'allow'):
        if name in conf:
            S.check(getattr(ctx, name) == conf[name], 'the client is what its configuration says: ' + name)
    for name in conf.get('callback', {}):
        S.check(ctx.callback[name] == conf['callback'][name], 'the client is what its configuration says: callback')
    S.check(ctx.issuer == iss, 'the client is for its issuer')
    S.check(ctx.base_url == BASE and ctx.jwks_uri == BASE + '/jwks.json', 'the client belongs to this relying party')
    want = ['signing key']
    if 'client_secret' in conf:
        want = [conf['client_secret'], 'signing key']
    S.check(ctx.keyjar.keys[''] == want and ctx.keyjar.keys[BASE] == ['signing key'],
            'the client has the keys of the relying party and its own secret')


@contract('C26', targets=[RH + 'init_client', RH + 'pick_config', RH + '__init__', 'oidcrp.oidc.RP.__init__',
                          'oidcrp.oauth2.Client.__init__', 'oidcrp.entity.Entity.__init__',
                          'oidcrp.service_context.ServiceContext.__init__', 'oidcrp.service.init_services',
                          'oidcrp.service.Service.__init__'])
def clients_apart(S):
    """clients made for different issuers share nothing that can change"""
    iss_a, iss_b, iss_c = S.str('iss'), S.str('iss'), S.str('iss')
    S.assume(iss_a != iss_b and iss_a != iss_c and iss_b != iss_c)
    conf_a = static(S, 'a', iss_a)
    conf_b = static(S, 'b', iss_b)
    configs = {iss_a: conf_a, iss_b: conf_b, '': dynamic()}
    given = copy.deepcopy(configs)
    rph = handler(S, configs, Web({}))
    defs = S.snapshot(rph.services)
    jar = copy.deepcopy(rph.keyjar.keys)
    first = S.choice('first', 'a', 'b', 'c', 'd')
    other = S.choice('second', 'a', 'b', 'c', 'e')
    S.assume(first != other)
    issuers = {'a': iss_a, 'b': iss_b, 'c': iss_c, 'd': iss_c + '/d', 'e': iss_c + '/e'}
    for n in ('d', 'e'):
        S.assume(issuers[n] != iss_a and issuers[n] != iss_b)
    one = S.call(rph.init_client, issuers[first])
    two = S.call(rph.init_client, issuers[other])
    S.check(one.ok and two.ok, 'a client is made')
    confs = {'a': given[iss_a], 'b': given[iss_b]}
    is_own(S, one.value, confs.get(first, given['']), issuers[first])
    is_own(S, two.value, confs.get(other, given['']), issuers[other])
    S.check(S.same(rph.services, defs), 'the service definitions are not changed')
    before = copy.deepcopy(contents(two.value))
    steps = [len(s.pre_construct) + len(s.post_construct) + len(s.construct_extra_headers)
             for s in two.value.client_get('services').values()]
    disturb(one.value)
    S.check(contents(two.value) == before, 'changing one client does not change another')
    S.check(steps == [len(s.pre_construct) + len(s.post_construct) + len(s.construct_extra_headers)
                      for s in two.value.client_get('services').values()], 'changing one client does not change another')
    S.check(rph.client_configs == given, 'the configuration is not changed')
    S.check(rph.keyjar.keys == jar, 'the keys of the relying party are not changed')
    S.check(S.same(rph.services, defs), 'the service definitions are not changed')
    three = S.call(rph.init_client, issuers[first])
    is_own(S, three.value, confs.get(first, given['']), issuers[first])
    S.cover('apart')


@contract('C26', targets=[RH + 'client_setup', RH + 'init_client', RH + 'do_provider_info', RH + 'do_client_registration',
                          RH + 'pick_config'])
def one_client_per_issuer(S):
    """client_setup, whatever clients there are, for any identifier of a provider"""
    iss_a, iss_b, iss_id, named, resolved = S.str('iss'), S.str('iss'), S.str('iss_id'), S.str('named'), S.str('resolved')
    S.assume(iss_a != iss_b)
    made = {'discovered': 0, 'registered': 0}

    def discover(client, behaviour_args=None):
        ctx = client.client_get('service_context')
        ctx.provider_info = {'issuer': named, 'token_endpoint': named + '/token'}
        ctx.issuer = named
        made['discovered'] += 1

    def register(client, request_args=None):
        client.client_get('service_context').client_id = 'registered'
        made['registered'] += 1

    def do_webfinger(self, user):
        client = self.init_client('')
        client.client_get('service_context').issuer = resolved
        return client
    S.patch(oidcrp.rp_handler, 'dynamic_provider_info_discovery', discover)
    S.patch(oidcrp.rp_handler, 'load_registration_response', register)
    S.patch(RPHandler, 'do_webfinger', do_webfinger)
    configs = {iss_a: static(S, 'a', iss_a), iss_b: static(S, 'b', iss_b), '': dynamic()}
    given = copy.deepcopy(configs)
    rph = handler(S, configs, Web({}))
    user = S.flag('by user')
    wanted = resolved if user else iss_id
    # a configured provider is asked for under the name it is configured with
    S.assume(named == wanted or (wanted not in configs and named not in configs))
    # the clients there are: of any provider, configured or not
    others = []
    if S.flag('served'):
        have = S.choice('have', iss_a, iss_b, named)
        if have == named:
            named_before = S.call(rph.client_setup, named)
            S.check(named_before.ok, 'a client is set up')
        else:
            S.check(S.call(rph.client_setup, have).ok, 'a client is set up')
        others = [have]
    before = {i: rph.issuer2rp[i] for i in others}
    inside = {i: copy.deepcopy(contents(rph.issuer2rp[i])) for i in others}
    S.check(list(rph.issuer2rp.keys()) == others, 'a client is kept under the issuer of its provider')
    registered = made['registered']
    if user:
        out = S.call(rph.client_setup, user='joe@example.org')
    else:
        out = S.call(rph.client_setup, iss_id)
    S.check(out.ok, 'a client is set up')
    ctx = out.value.client_get('service_context')
    issuer = wanted if wanted in given else named
    S.check(ctx.issuer == issuer and ctx.provider_info['issuer'] == issuer, 'the client is for the provider asked for')
    S.check(rph.issuer2rp[issuer] is out.value, 'a client is kept under the issuer of its provider')
    for i in others:
        S.check(rph.issuer2rp[i] is before[i] and contents(before[i]) == inside[i], 'clients of other providers stay as they are')
        S.check((issuer == i) == (before[i] is out.value), 'the same provider has the same client, another provider another')
    if issuer in given:
        S.check(ctx.client_id == given[issuer]['client_id'], 'a configured client is used')
        S.check(made['registered'] == registered, 'a configured client is not registered')
        S.cover('configured')
    elif issuer in others:
        S.check(made['registered'] == registered, 'a client is registered once')
        S.cover('known')
    else:
        S.check(made['registered'] == registered + 1 and ctx.client_id == 'registered', 'a new client is registered')
        S.cover('new')
    count = made['registered']
    again = S.call(rph.client_setup, iss_id)
    if not user:
        S.check(again.ok and again.value is out.value, 'the same provider has the same client')
        S.check(made['registered'] == count, 'a client is registered once')
    byname = S.call(rph.client_setup, issuer)
    S.check(byname.ok and byname.value is out.value, 'the same provider has the same client')
    S.check(rph.client_configs == given, 'the configuration is not changed')


ISS_C = 'https://c.example'
ISS_D = 'https://d.example/x'


def providers(S, d):
    """two providers nothing is configured for; d: what the second one is able to do"""
    more = {'full': {'token_endpoint_auth_methods_supported': ['client_secret_post', 'private_key_jwt'],
                     'scopes_supported': ['openid', 'email'], 'response_types_supported': ['code', 'id_token', 'code id_token'],
                     'userinfo_signing_alg_values_supported': ['ES256']},
            'little': {'response_types_supported': ['id_token'], 'scopes_supported': [],
                       'subject_types_supported': ['pairwise']}}[d]
    answers = {}
    for iss, name, md in ((ISS_C, 'c', {}), (ISS_D, 'd', more)):
        answers[iss + '/.well-known/openid-configuration'] = metadata(iss, iss, **md)
        answers[iss + '/registration'] = {'client_id': S.str('id_' + name), 'client_secret': S.str('secret_' + name),
                                          'redirect_uris': [BASE + '/cb'], 'client_secret_expires_at': 0,
                                          'response_types': [answers[iss + '/.well-known/openid-configuration']
                                                             ['response_types_supported'][0]]}
    answers['https://c.example.org/.well-known/webfinger'] = {
        'subject': 'acct:joe@c.example.org', 'links': [{'rel': 'http://openid.net/specs/connect/1.0/issuer', 'href': ISS_C}]}
    return answers


@contract('C26', targets=[RH + 'client_setup', RH + 'init_client', RH + 'do_provider_info', RH + 'do_client_registration',
                          RH + 'do_webfinger', 'oidcrp.oauth2.dynamic_provider_info_discovery',
                          'oidcrp.util.load_registration_response',
                          'oidcrp.oidc.provider_info_discovery.ProviderInfoDiscovery.match_preferences',
                          'oidcrp.oidc.registration.add_callbacks'])
def no_influence(S):
    """a client is the same whatever was set up before it, and after"""
    answers = providers(S, S.choice('second provider', 'full', 'little'))
    conf = dynamic()
    conf['hash_seed'] = 'seed'
    if S.flag('no redirect_uris'):
        del conf['redirect_uris']
    configs = {'': conf}
    given = copy.deepcopy(configs)
    alone = handler(S, copy.deepcopy(configs), Web(answers))
    rph = handler(S, configs, Web(answers))
    how = S.choice('how', 'issuer', 'user')
    when = S.choice('when', 'before', 'after', 'user before')
    expected = S.call(alone.client_setup, ISS_C)
    S.check(expected.ok, 'a client is set up')
    if when == 'before':
        S.check(S.call(rph.client_setup, ISS_D).ok, 'a client is set up')
    elif when == 'user before':
        S.check(S.call(rph.do_webfinger, 'joe@c.example.org').ok, 'the provider of the user is found')
    if how == 'issuer':
        out = S.call(rph.client_setup, ISS_C)
    else:
        out = S.call(rph.client_setup, user='joe@c.example.org')
    S.check(out.ok, 'a client is set up')
    if when == 'after':
        S.check(S.call(rph.client_setup, ISS_D).ok, 'a client is set up')
    got, want = contents(out.value), contents(expected.value)
    for part in (got, want):
        del part[0]['config']
    S.check(got == want, 'a client is the same whatever else was set up')
    if when != 'user before':
        other = rph.issuer2rp[ISS_D]
        S.check(other is not out.value, 'different providers have different clients')
        octx = other.client_get('service_context')
        S.check(octx.client_id == answers[ISS_D + '/registration']['client_id'] and
                octx.client_secret == answers[ISS_D + '/registration']['client_secret'] and octx.issuer == ISS_D,
                'credentials are those registered with the provider')
        S.check(octx.callback.get('code', ISS_D) != out.value.client_get('service_context').callback.get('code', ISS_C),
                'redirect URIs are made for one provider')
    ctx = out.value.client_get('service_context')
    S.check(ctx.client_id == answers[ISS_C + '/registration']['client_id'] and ctx.issuer == ISS_C,
            'credentials are those registered with the provider')
    S.check(rph.client_configs == given, 'the configuration is not changed')
    S.cover('set up')


@contract('C26', targets=[RH + 'state2issuer', RH + 'get_client_from_session_key', RH + 'get_session_information',
                          RH + 'init_authorization', RH + 'begin', 'oidcrp.state_interface.StateInterface.create_state',
                          'oidcrp.state_interface.StateInterface.get_iss'])
def states(S):
    """a session belongs to the provider it was started with"""
    iss_a, iss_b = S.str('iss'), S.str('iss')
    S.assume(iss_a != iss_b)
    configs = {iss_a: static(S, 'a', iss_a), iss_b: static(S, 'b', iss_b)}
    rph = handler(S, configs, Web({}))
    order = S.choice('order', [0, 1], [1, 0])
    for i in order:
        S.check(S.call(rph.client_setup, (iss_a, iss_b)[i]).ok, 'a client is set up')
    started = []
    for i in S.choice('sessions', [0], [1], [0, 1], [1, 0], [0, 0, 1], [1, 0, 1]):
        iss = (iss_a, iss_b)[i]
        out = S.call(rph.begin, iss)
        S.check(out.ok, 'an authentication begins')
        started.append((iss, out.value['state']))
    for iss, state in started:
        found = S.call(rph.state2issuer, state)
        S.check(found.ok and found.value == iss, 'a state leads to the issuer its session was started with')
        client = S.call(rph.get_client_from_session_key, state)
        S.check(client.ok and client.value is rph.issuer2rp[iss], 'and to the client of that issuer')
        info = S.call(rph.get_session_information, state)
        S.check(info.ok and info.value['iss'] == iss, 'and to the session')
        S.check(info.value['auth_request']['state'] == state, 'and to the session')
        for other in (iss_a, iss_b):
            if other != iss:
                S.check(state not in rph.issuer2rp[other].client_get('service_context').state._db,
                        'the session is not known to clients of other providers')
    unknown = S.str('unknown')
    for iss, state in started:
        S.assume(unknown != state)
    S.assume(not unknown.startswith('__'))
    none = S.call(rph.state2issuer, unknown)
    S.check(none.ok and none.value is None, 'an unknown state leads nowhere')
    S.check(S.call(rph.get_client_from_session_key, unknown).exc is KeyError, 'an unknown state leads nowhere')
    S.cover('states')
