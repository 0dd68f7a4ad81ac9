"""C15 provider info discovery."""
import json

from dv.api import contract

from contracts import tokens
from contracts.c07_http import Http, Response
from contracts.common import make_client, make_context, make_handler, make_service

from oidcmsg.oauth2 import ASConfigurationResponse
from oidcmsg.oidc import ProviderConfigurationResponse
from oidcrp.exception import OidcServiceError
from oidcrp.oauth2 import provider_info_discovery as o2_pi
from oidcrp.oidc import access_token as oidc_at
from oidcrp.oidc import authorization as oidc_authz
from oidcrp.oidc import end_session
from oidcrp.oidc import provider_info_discovery as oidc_pi
from oidcrp.oidc import refresh_access_token as oidc_rat
from oidcrp.oidc import registration
from oidcrp.oidc import userinfo
from oidcrp.oauth2 import dynamic_provider_info_discovery

O2 = 'oidcrp.oauth2.provider_info_discovery.ProviderInfoDiscovery.'
OI = 'oidcrp.oidc.provider_info_discovery.ProviderInfoDiscovery.'
RH = 'oidcrp.rp_handler.RPHandler.'

ENDPOINTS = {'authorization': 'authorization_endpoint', 'accesstoken': 'token_endpoint',
             'refresh_token': 'token_endpoint', 'userinfo': 'userinfo_endpoint',
             'registration': 'registration_endpoint', 'end_session': 'end_session_endpoint'}


class Keys:
    """a key jar that remembers what was loaded for whom"""

    def __init__(self):
        self.loaded = []

    def load_keys(self, issuer_id, jwks_uri='', jwks=None, replace=False):
        self.loaded.append((issuer_id, jwks_uri, jwks))

    def add_url(self, issuer_id, url):
        self.loaded.append((issuer_id, url, None))

    def import_jwks_from_file(self, name, issuer_id):
        self.loaded.append((issuer_id, name, 'file'))

    def export_jwks_as_json(self, issuer=''):
        return '{}'


def world(S, flavour, iss):
    ctx = make_context(S, issuer=iss, client_id='client')
    ctx.keyjar = Keys()
    client = make_client(S, ctx)
    cls = oidc_pi.ProviderInfoDiscovery if flavour == 'oidc' else o2_pi.ProviderInfoDiscovery
    srv = make_service(S, cls, client=client)
    make_service(S, oidc_authz.Authorization, client=client)
    make_service(S, oidc_at.AccessToken, client=client)
    make_service(S, oidc_rat.RefreshAccessToken, client=client)
    make_service(S, userinfo.UserInfo, client=client)
    make_service(S, registration.Registration, client=client)
    make_service(S, end_session.EndSession, client=client)
    return ctx, client, srv


def metadata(S, issuer, optional=True):
    eps = {}
    for n in ('authorization_endpoint', 'token_endpoint', 'userinfo_endpoint', 'registration_endpoint',
              'end_session_endpoint'):
        eps[n] = S.str(n)
    md = dict(eps)
    md['issuer'] = issuer
    md['response_types_supported'] = ['code']
    md['grant_types_supported'] = ['authorization_code']
    md['subject_types_supported'] = ['public']
    md['id_token_signing_alg_values_supported'] = ['RS256']
    return md, eps


def set_up(S, ctx, client, md, eps):
    for name in ENDPOINTS:
        S.check(client._service[name].get_endpoint() == eps[ENDPOINTS[name]],
                'every service uses the endpoint of the response')
    for k in md:
        S.check(k in ctx.provider_info and ctx.provider_info[k] == md[k], 'the provider information is that of the response')


def same_issuer(a, b):
    """equal up to one trailing slash"""
    if a.endswith('/') == b.endswith('/'):
        return a == b
    return a == b + '/' or a + '/' == b


@contract('C15', targets=[O2 + '_verify_issuer', O2 + '_update_service_context', O2 + '_set_endpoints',
                          O2 + 'update_service_context', OI + 'update_service_context',
                          'oidcrp.service.Service.get_endpoint'])
def issuer_checked(S):
    """any pair of issuers"""
    flavour = S.choice('flavour', 'oidc', 'oauth2')
    asked, named = S.str('asked'), S.str('named')
    ctx, client, srv = world(S, flavour, asked)
    allow = S.choice('allow', {}, {'issuer_mismatch': False}, {'issuer_mismatch': True}, {'missing_kid': True})
    ctx.allow = dict(allow)
    earlier = S.flag('earlier')
    if earlier:
        ctx.provider_info = {'issuer': asked, 'token_endpoint': 'https://old/token'}
        client._service['accesstoken'].endpoint = 'https://old/token'
    md, eps = metadata(S, named)
    uri = S.str('jwks_uri')
    keys = S.choice('keys', 'none', 'uri', 'jwks')
    if keys == 'uri':
        md['jwks_uri'] = uri
    elif keys == 'jwks':
        md['jwks'] = {'keys': []}
    cls = ProviderConfigurationResponse if flavour == 'oidc' else ASConfigurationResponse
    pi_before = ctx.provider_info
    out = S.call(srv.update_service_context, cls(**md))
    off = allow.get('issuer_mismatch') is True
    if out.ok:
        S.check(off or same_issuer(asked, named), 'accepted only from the issuer that was asked')
        if not off:
            S.check(ctx.issuer == named, 'the issuer is the one of the response')
        else:
            S.check(ctx.issuer == asked or ctx.issuer == asked + '/' or ctx.issuer + '/' == asked,
                    'the issuer that was asked stays')
            S.cover('check is off')
        set_up(S, ctx, client, md, eps)
        if keys == 'uri':
            S.check(ctx.keyjar.loaded == [(ctx.issuer, uri, None)], 'the keys of the response are loaded for the issuer')
        elif keys == 'jwks':
            S.check(ctx.keyjar.loaded == [(ctx.issuer, '', {'keys': []})],
                    'the keys of the response are loaded for the issuer')
        else:
            S.check(ctx.keyjar.loaded == [], 'no other keys are loaded')
        S.cover('accepted')
    else:
        S.check(out.exc is OidcServiceError, 'a mismatch is reported')
        S.check(not off and not same_issuer(asked, named), 'a response of the right issuer is accepted')
        S.check(ctx.issuer == asked and ctx.provider_info is pi_before and ctx.keyjar.loaded == [],
                'a refused response changes nothing')
        S.check(client._service['accesstoken'].endpoint == ('https://old/token' if earlier else ''),
                'a refused response changes no endpoint')
        S.check(client._service['userinfo'].endpoint == '', 'a refused response changes no endpoint')
        S.cover('refused')


ASKED = ('https://op.example.org', 'https://op.example.org/', 'https://op.example.org/a/b', 'http://local')
NAMED = ('https://op.example.org', 'https://op.example.org/', 'https://op.example.org.evil.com',
         'https://op.example.org/a/b', 'https://op.example.org//', 'HTTPS://op.example.org', 'http://local',
         'http://op.example.org', 'https://op.example.org?x=y')


@contract('C15', targets=['oidcrp.oauth2.Client.do_request', 'oidcrp.oauth2.Client.service_request',
                          'oidcrp.oauth2.dynamic_provider_info_discovery', O2 + 'get_request_parameters',
                          O2 + 'get_endpoint', RH + 'do_provider_info'],
          bounded='the issuers asked for and named are drawn from lists of 4 and 9 URLs')
def exchange(S):
    """from request to stored metadata"""
    tokens.install(S, [])
    flavour = S.choice('flavour', 'oidc', 'oauth2')
    asked = S.choice('asked', *ASKED)
    named = S.choice('named', *NAMED)
    ctx, client, srv = world(S, flavour, asked)
    via = S.choice('via', 'issuer', 'discovery url')
    if via != 'issuer':
        ctx.issuer = ''
        ctx.config = {'srv_discovery_url': asked}
    md, eps = metadata(S, named)
    uri = S.str('jwks_uri')
    md['jwks_uri'] = uri
    status = S.choice('status', 200, 404)
    body = md if status == 200 else {'error': 'nope'}
    http = Http(Response(status, {'content-type': 'application/json'}, json.dumps(body)))
    client.http = http
    rph = make_handler(S)
    out = S.call(rph.do_provider_info, client)
    base = asked
    if asked.endswith('/'):
        base = asked[:-1]
    S.check(len(http.sent) == 1 and http.sent[0][0] == base + '/.well-known/openid-configuration' and
            http.sent[0][1] == 'GET', 'the metadata is fetched from the well-known place of the issuer')
    if out.ok:
        S.check(status == 200 and same_issuer(asked, named), 'accepted only from the issuer that was asked')
        S.check(out.value == named and ctx.issuer == named, 'the issuer is the one of the response')
        set_up(S, ctx, client, md, eps)
        S.check(ctx.keyjar.loaded == [(named, uri, None)], 'the keys of the response are loaded for the issuer')
        S.cover('accepted')
    else:
        S.check(status != 200 or not same_issuer(asked, named), 'a response of the right issuer is accepted')
        S.check(ctx.issuer == asked and ctx.provider_info == {} and ctx.keyjar.loaded == [],
                'a refused response changes nothing')
        S.check(client._service['accesstoken'].endpoint == '', 'a refused response changes no endpoint')
        S.cover('refused')


@contract('C15', targets=[O2 + 'get_endpoint', O2 + 'get_request_parameters'])
def discovery_url(S):
    """well-known place of any issuer"""
    iss = S.str('iss')
    ctx, client, srv = world(S, S.choice('flavour', 'oidc', 'oauth2'), iss)
    out = S.call(srv.get_request_parameters)
    S.check(out.ok and out.value['method'] == 'GET', 'metadata is fetched with GET')
    well_known = '/.well-known/openid-configuration'
    if iss.endswith('/'):
        S.check(out.value['url'] + '/' == iss + well_known[1:] + '/' or out.value['url'] == iss[:-1] + well_known,
                'one trailing slash is dropped')
        S.cover('slash')
    else:
        S.check(out.value['url'] == iss + well_known, 'the issuer plus the well-known path')
        S.cover('plain')


@contract('C15', targets=[RH + 'do_provider_info'])
def configured(S):
    """provider information from the configuration"""
    iss = S.str('iss')
    ctx, client, srv = world(S, 'oidc', iss)
    md, eps = metadata(S, iss)
    url = S.str('keys_url')
    keys = S.choice('keys', 'none', 'url', 'file', 'bad')
    if keys == 'url':
        md['keys'] = {'url': {iss: url}}
    elif keys == 'file':
        md['keys'] = {'file': {'jwks': 'keys.json'}}
    elif keys == 'bad':
        md['keys'] = {'magic': {}}
    if S.flag('issuer left out'):
        del md['issuer']
    ctx.provider_info = md
    rph = make_handler(S)
    out = S.call(rph.do_provider_info, client)
    if keys == 'bad':
        S.check(not out.ok and issubclass(out.exc, ValueError), 'an unknown kind of keys is an error')
        S.cover('refused')
        return
    S.check(out.ok and out.value == iss, 'the configured information is used')
    for name in ENDPOINTS:
        S.check(client._service[name].endpoint == eps[ENDPOINTS[name]], 'every service gets its endpoint')
    if keys == 'url':
        S.check(ctx.keyjar.loaded == [(iss, url, None)], 'keys are loaded for the issuer they are for')
    elif keys == 'file':
        S.check(ctx.keyjar.loaded == [(iss, 'keys.json', 'file')], 'keys are loaded for the issuer they are for')
    else:
        S.check(ctx.keyjar.loaded == [], 'no other keys are loaded')
    S.cover('done')
