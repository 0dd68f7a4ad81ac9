"""C25 the configured transport settings, from the configuration to every request."""
import copy

import oidcmsg.context
import oidcrp.configure
import oidcrp.http
import oidcrp.service_context
import requests

from dv.api import contract

from contracts.c07_http import Response

from oidcrp.configure import RPConfiguration
from oidcrp.http import HTTPLib
from oidcrp.oidc import RP
from oidcrp.rp_handler import RPHandler
from oidcrp.service_context import ServiceContext
from oidcrp.util import get_http_params

HL = 'oidcrp.http.HTTPLib.'


class Wire:
    """stands for requests.request: what is sent, with which settings"""

    def __init__(self, headers):
        self.headers = headers
        self.sent = []

    def __call__(self, method, url, **kwargs):
        self.sent.append((method, url, copy.deepcopy(kwargs)))
        return Response(200, self.headers, '')


class Cookies:
    """stands for http.cookies.SimpleCookie: a cookie that was received"""

    def __init__(self, text):
        self.text = text


class CookieJar:
    def __init__(self):
        self._cookies = {}

    def __len__(self):
        return len(self._cookies)


class Cookie:
    name = 'sid'
    value = 'session'


def put_cookie(jar, cookies):
    jar._cookies['op'] = {'/': {'sid': Cookie()}}


def settings(S):
    ca, timeout = S.str('ca'), S.int('timeout', 1)
    return S.choice('settings', None, {}, {'verify': ca}, {'verify': False},
                    {'verify': S.bool('verify'), 'cert': (ca, S.str('client_key')), 'timeout': timeout},
                    {'timeout': timeout})


def applied(S, sent, conf, own):
    """the arguments of the request: the configured ones, and those of the request itself"""
    want = {'allow_redirects': False}
    want.update(conf or {})
    want.update(own)
    S.check(sent == want, 'the settings are the configured ones, the rest is of this request')


@contract('C25', targets=[HL + '__call__', HL + '__init__', HL + 'send', HL + 'add_cookies', HL + 'set_cookie',
                          HL + 'run_req_callback'])
def one_after_another(S):
    """requests in a row over one HTTP client: nothing stays behind"""
    wire = Wire({'set-cookie': 'sid=session'} if S.flag('cookie received') else {})
    S.patch(requests, 'request', wire)
    S.trust('http.cookies, http.cookiejar: a received cookie ends up in the cookie jar')
    S.patch(oidcrp.http, 'SimpleCookie', Cookies)
    S.patch(oidcrp.http, 'FileCookieJar', CookieJar)
    S.patch(oidcrp.http, 'set_cookie', put_cookie)
    conf = settings(S)
    given = copy.deepcopy(conf)
    lib = HTTPLib(conf)
    before = copy.deepcopy(lib.request_args)
    expected = []
    for n in ('1', '2', '3'):
        url, own = S.str('url' + n), {}
        method = S.choice('method' + n, 'GET', 'POST') if n != '2' else 'POST'
        if n != '3' and (n == '1' or S.flag('body' + n)):
            own['data'] = S.str('body' + n)
        if n == '1':
            own['headers'] = {'Authorization': S.str('authz')}
        if n == '2' and S.flag('own timeout'):
            own['timeout'] = S.int('timeout' + n, 1)
        out = S.call(lib.send if n == '2' else lib, url, method, **own)
        S.check(out.ok and out.value.status_code == 200, 'the answer is handed back')
        expected.append((url, method, own))
    S.check(len(wire.sent) == 3, 'each request is sent once')
    for sent, want in zip(wire.sent, expected):
        S.check(sent[0] == want[1] and sent[1] == want[0], 'to its URL, with its method')
        applied(S, sent[2], given, want[2])
    S.check(lib.request_args == before and conf == given, 'the settings stay as they are')
    S.cover('sent')


class Jar:
    """stands for cryptojwt's KeyJar: keys are fetched with its settings"""

    def __init__(self, httpc_params=None):
        self.httpc_params = httpc_params or {}
        if 'timeout' not in self.httpc_params:
            self.httpc_params['timeout'] = 10
        self.fetched = []
        self.bundles = []

    def __len__(self):
        return 0

    def __contains__(self, issuer_id):
        return False

    def load_keys(self, issuer_id, jwks_uri='', jwks=None, replace=False):
        self.fetched.append((jwks_uri, self.httpc_params))

    def add_url(self, issuer_id, url):
        self.fetched.append((url, self.httpc_params))

    def add_kb(self, issuer_id, bundle):
        self.bundles.append((issuer_id, bundle))

    def add_symmetric(self, issuer_id, key, usage=None):
        pass

    def export_jwks(self, private=False, issuer_id=''):
        return {'keys': []}

    def dump(self, exclude_issuers=None):
        return {'httpc_params': self.httpc_params}

    def load(self, info):
        self.httpc_params = info['httpc_params']
        return self


class Bundle:
    """stands for cryptojwt's KeyBundle"""

    def __init__(self, keys=None, source='', httpc_params=None):
        self.source = source
        self.httpc_params = httpc_params or {}
        if 'timeout' not in self.httpc_params:
            self.httpc_params['timeout'] = 10


def install(S):
    S.trust('cryptojwt KeyJar, KeyBundle: keys are fetched with httpc_params, which have a timeout by default')
    wire = Wire({})
    S.patch(requests, 'request', wire)
    S.patch(oidcmsg.context, 'KeyJar', Jar)
    S.patch(oidcrp.service_context, 'KeyBundle', Bundle)
    return wire


def fetch_settings(S, params, conf, verify=True):
    """what keys are fetched with: as everything else; a timeout if none is configured"""
    want = {'timeout': 10, 'verify': verify}
    if conf:
        want = {'timeout': 10}
        want.update(conf)
    S.check({'timeout': 10, **params} == want, 'keys are fetched with the configured settings')


CONF = {'issuer': 'https://op', 'client_id': 'client', 'redirect_uris': ['https://rp/cb']}
SERVICES = {'discovery': {'class': 'oidcrp.oidc.provider_info_discovery.ProviderInfoDiscovery'}}


@contract('C25', targets=['oidcrp.rp_handler.RPHandler.__init__', 'oidcrp.rp_handler.RPHandler.init_client',
                          'oidcrp.oidc.RP.__init__', 'oidcrp.oauth2.Client.__init__', 'oidcrp.entity.Entity.__init__',
                          'oidcrp.util.set_httpc_params', HL + '__init__', HL + '__call__'])
def from_the_handler(S):
    """settings of the relying party: every client, every request, the keys"""
    wire = install(S)
    conf = settings(S)
    verify = S.choice('verify_ssl', True, False)
    given = copy.deepcopy(conf)
    jar = Jar()
    rph = S.call(RPHandler, 'https://rp', keyjar=jar, httpc_params=conf, verify_ssl=verify,
                 services=SERVICES, client_configs={'https://op': copy.deepcopy(CONF), '': {'client_id': 'x'}}).value
    want = given if given else {'verify': verify}
    urls = []
    for iss in ('https://op', 'https://other', 'https://op'):
        client = S.call(rph.init_client, iss)
        S.check(client.ok, 'a client is made')
        url = S.str('url')
        urls.append(url)
        client.value.http(url)
        fetch_settings(S, client.value.client_get('service_context').keyjar.httpc_params, want)
        S.check(client.value.verify_ssl == want.get('verify', True), 'the client knows whether certificates are verified')
        S.check(client.value.httpc_params == want, 'the client has the configured settings')
        client.value.httpc_params['verify'] = 'changed'
        client.value.client_get('service_context').httpc_params['timeout'] = 999
    S.check([s[1] for s in wire.sent] == urls, 'each request is sent once')
    for m, u, kw in wire.sent:
        applied(S, kw, want, {})
    S.check(conf == given, 'the configuration stays as it is')
    S.cover('applied')


@contract('C25', targets=['oidcrp.oidc.RP.__init__', 'oidcrp.oauth2.Client.__init__', 'oidcrp.entity.Entity.__init__',
                          'oidcrp.service_context.ServiceContext.import_keys', 'oidcrp.util.set_httpc_params',
                          'oidcrp.service_context.ServiceContext.__init__'])
def from_a_client(S):
    """settings of a client on its own"""
    wire = install(S)
    conf = settings(S)
    given = copy.deepcopy(conf)
    own = S.choice('key jar', 'none', 'given', 'given with settings')
    jar = None
    if own == 'given':
        jar = Jar()
    elif own == 'given with settings':
        jar = Jar({'verify': 'its own'})
    out = S.call(RP, config=dict(CONF), services=SERVICES, keyjar=jar, httpc_params=conf)
    S.check(out.ok, 'a client is made')
    client = out.value
    url = S.str('url')
    client.http(url)
    S.check(len(wire.sent) == 1 and wire.sent[0][1] == url, 'sent once')
    applied(S, wire.sent[0][2], given, {})
    S.check(client.verify_ssl == (given or {}).get('verify', True), 'the client knows whether certificates are verified')
    ctx = client.client_get('service_context')
    if own == 'given with settings':
        S.check(ctx.keyjar.httpc_params == {'verify': 'its own', 'timeout': 10}, 'a key jar keeps settings of its own')
    else:
        fetch_settings(S, ctx.keyjar.httpc_params, given)
    imp = S.call(ctx.import_keys, {'url': {'https://op': url}})
    S.check(imp.ok and len(ctx.keyjar.bundles) == 1 and ctx.keyjar.bundles[0][0] == 'https://op' and
            ctx.keyjar.bundles[0][1].source == url, 'configured keys are those of the issuer they are configured for')
    fetch_settings(S, ctx.keyjar.bundles[0][1].httpc_params, given)
    S.check(conf == given, 'the configuration stays as it is')
    S.cover('applied')


@contract('C25', targets=['oidcrp.util.get_http_params'])
def read_from_configuration(S):
    """settings by name: verification is on unless switched off"""
    conf = S.record('conf', {}, {'verify': S.choice('verify', True, False, 'ca.pem'),
                                 'verify_ssl': S.bool('verify_ssl'), 'client_cert': S.str('cert'),
                                 'client_key': S.str('key')})
    out = S.call(get_http_params, conf)
    S.check(out.ok, 'it can be read')
    if 'verify' in conf:
        S.check(out.value['verify'] == conf['verify'], 'verification as configured')
    else:
        S.check(out.value['verify'] == conf.get('verify_ssl', True), 'verification on unless switched off')
    if conf.get('client_cert'):
        S.check(out.value['cert'] == ((conf['client_cert'], conf['client_key']) if conf.get('client_key')
                                      else conf['client_cert']), 'the client certificate, with its key')
    else:
        S.check('cert' not in out.value, 'no client certificate')
    S.cover('read')


class Settings:
    """stands for oidcmsg's configuration base class: a dictionary with attributes"""

    def __init__(self, conf, base_path='', domain='', port=0, file_attributes=None, dir_attributes=None):
        self.conf = conf


@contract('C25', targets=['oidcrp.configure.RPConfiguration.__init__', 'oidcrp.util.lower_or_upper'])
def configured(S):
    """the transport settings of a configuration"""
    ca = S.str('ca')
    conf = S.record('conf', {'base_url': 'https://rp', 'hash_seed': 'seed'},
                    {'httpc_params': {'verify': ca, 'timeout': 3}, 'HTTPC_PARAMS': {'verify': False}})
    S.trust('oidcmsg Base: a configuration object has the attributes that are set on it')
    S.patch(oidcrp.configure, 'Base', Settings)
    res = Settings(conf)
    out = S.call(RPConfiguration.__init__, res, conf)
    S.check(out.ok, 'it can be read')
    if 'httpc_params' in conf:
        S.check(res.httpc_params == {'verify': ca, 'timeout': 3}, 'as configured')
    elif 'HTTPC_PARAMS' in conf:
        S.check(res.httpc_params == {'verify': False}, 'as configured')
    else:
        S.check(res.httpc_params == {'verify': True}, 'verification is on unless configured off')
    S.cover('read')
