"""C23 WebFinger: from what the user types to the issuer."""
import json
from urllib.parse import parse_qs
from urllib.parse import urlsplit

from dv.api import contract

from contracts import tokens
from contracts.c07_http import Response
from contracts.c15_discovery import Keys
from contracts.common import make_client, make_context, make_handler, make_service

from oidcmsg.exception import MissingRequiredAttribute
from oidcmsg.oidc import JRD
from oidcmsg.oidc import Link
from oidcrp.oidc import OIC_ISSUER
from oidcrp.oidc.provider_info_discovery import ProviderInfoDiscovery
from oidcrp.oidc.webfinger import WebFinger
from oidcrp.rp_handler import RPHandler

WF = 'oidcrp.oidc.webfinger.WebFinger.'
DELIMITERS = (':', '/', '?', '#', '@', '[', ']', ' ', '\t', '\r', '\n')
BLANKS = (' ', '\t', '\r', '\n')


def service(S, **conf):
    ctx = make_context(S, issuer='before')
    client = make_client(S, ctx)
    return make_service(S, WebFinger, client=client, conf=conf), ctx


def asked(S, out, authority, resource):
    """the question goes over https to that host, about that resource, for the issuer"""
    S.check(out.ok, 'there is a request')
    url = urlsplit(out.value['url'])
    S.check(url.scheme == 'https' and url.netloc == authority, 'the request goes over https to the host of the identifier')
    S.check(url.path == '/.well-known/webfinger' and not url.fragment, 'to its WebFinger address')
    q = parse_qs(url.query)
    S.check(q == {'resource': [resource], 'rel': [OIC_ISSUER]}, 'it asks for the issuer of the normalised resource')
    S.check(out.value['method'] == 'GET', 'with GET')


def host_of(S):
    host = S.choice('host_begins', 'o', 'X', '1') + S.str('host', nonempty=False, no=DELIMITERS)
    for s in ('http', 'https', 'acct'):
        S.assume(host.lower() != s)
    return host


def rest_of(S, path=True, query=True, fragment=True):
    """-> path, query, fragment, with their delimiters"""
    p, q, f = '', '', ''
    if path:
        p = '/' + S.str('path', nonempty=False, no=('?', '#') + BLANKS)
    if query:
        q = '?' + S.str('query', no=('#',) + BLANKS)
    if fragment:
        f = '#' + S.str('fragment', nonempty=False, no=BLANKS)
    return p, q, f


@contract('C23', targets=[WF + 'query', WF + 'get_request_parameters'])
def without_scheme(S):
    """[user@]host[:port][/path][?query][#fragment]"""
    srv, ctx = service(S)
    host = host_of(S)
    user = ''
    if S.flag('user'):
        user = S.choice('user_begins', 'j', '7') + S.str('user_name', nonempty=False, no=DELIMITERS) + '@'
    port = S.choice('port', '', ':8080')
    path, query, fragment = rest_of(S, S.flag('with_path'), S.flag('with_query'), S.flag('with_fragment'))
    out = S.call(srv.get_request_parameters, {'resource': user + host + port + path + query + fragment})
    if port or path or query or len(fragment) > 1:
        asked(S, out, user + host + port, 'https://' + user + host + port + path + query)
        S.cover('URL')
    else:
        asked(S, out, host, 'acct:' + user + host)
        S.cover('account')


@contract('C23', targets=[WF + 'query', WF + 'create_url'])
def url(S):
    """http and https URLs"""
    srv, ctx = service(S)
    scheme = S.choice('scheme', 'https', 'http', 'HTTPS')
    authority = S.choice('user', '', 'joe@') + S.str('host', no=DELIMITERS) + S.choice('port', '', ':8080')
    path, query, fragment = rest_of(S, S.flag('with_path'), S.flag('with_query'), S.flag('with_fragment'))
    S.assume(not path.startswith('//'))
    out = S.call(srv.get_request_parameters, {'resource': scheme + '://' + authority + path + query + fragment})
    asked(S, out, authority, scheme.lower() + '://' + authority + path + query)
    S.cover('URL')


@contract('C23', targets=[WF + 'query', WF + 'create_url'])
def account(S):
    """acct URIs"""
    srv, ctx = service(S)
    scheme = S.choice('scheme', 'acct', 'ACCT')
    user, host = S.str('user', no=DELIMITERS), S.str('host', no=DELIMITERS) + S.choice('port', '', ':8080')
    query, fragment = '', ''
    path = S.choice('path', '', '/joe', '/a@b/c@d')
    if S.flag('with_query'):
        query = '?' + S.str('query', no=('#',) + BLANKS)
    if S.flag('with_fragment'):
        fragment = '#' + S.str('fragment', nonempty=False, no=BLANKS)
    out = S.call(srv.get_request_parameters, {'resource': scheme + ':' + user + '@' + host + path + query + fragment})
    asked(S, out, host, 'acct:' + user + '@' + host + path + query)
    S.cover('account')


@contract('C23', targets=[WF + 'query'])
def refused(S):
    """what names no host, or has a form of its own, is not asked about"""
    srv, ctx = service(S)
    rest = S.str('rest', nonempty=False, no=BLANKS + ('[', ']'))
    plain = S.str('plain', nonempty=False, no=DELIMITERS)
    case = S.choice('identifier', 'xri', 'no name', 'account', 'url', 'double slash')
    if case == 'xri':
        ident = S.choice('first', '=', '@', '!') + rest
    elif case == 'no name':
        S.assume(plain[:1] not in ('=', '!'))
        ident = S.choice('nothing', plain + '@', '/' + plain, '?' + plain, '#' + plain, '/' + plain + '#x')
    elif case == 'account':
        ident = 'acct:' + S.choice('nothing', plain + '@', plain, plain + '/a@b', plain + '?a@b', plain + '#a@b',
                                   plain + '@/p')
    elif case == 'url':
        ident = S.choice('scheme', 'http', 'https') + S.choice('nothing', ':' + plain, ':///' + plain, '://?' + plain,
                                                               ':/' + plain)
    else:
        ident = '//' + plain
    out = S.call(srv.get_request_parameters, {'resource': ident})
    S.check(not out.ok, 'no question is asked')
    S.cover(case)


@contract('C23', targets=[WF + 'get_request_parameters'])
def which(S):
    """whom the question is about: argument, else keyword, else configuration"""
    srv, ctx = service(S)
    names = []
    args, kwargs = {}, {}
    if S.flag('argument'):
        args['resource'] = 'acct:joe@' + S.str('host_1', no=DELIMITERS)
        names.append(args['resource'])
    if S.flag('keyword'):
        kwargs['resource'] = 'acct:joe@' + S.str('host_2', no=DELIMITERS)
        names.append(kwargs['resource'])
    if S.flag('configured'):
        ctx.config['resource'] = 'acct:joe@' + S.str('host_3', no=DELIMITERS)
        names.append(ctx.config['resource'])
    if not args and S.flag('no_arguments'):
        args = None
    out = S.call(srv.get_request_parameters, args, **kwargs)
    if names:
        asked(S, out, names[0][9:], names[0])
        S.cover('asked')
    else:
        S.check(not out.ok and out.exc is MissingRequiredAttribute, 'without an identifier there is no question')
        S.cover('nothing')


def link_of(f):
    """any link: its relation, and a target of any scheme or none"""
    if not f.flag('issuer'):
        return Link(rel='x' + f.str('rel'), href='https://' + f.str('target', no=DELIMITERS))
    rel = OIC_ISSUER
    kind = f.choice('kind', 'https', 'HTTPS', 'http', 'ftp', 'none', 'relative')
    name = f.str('target', no=DELIMITERS)
    if kind == 'none':
        return Link(rel=rel)
    return Link(rel=rel, href=name if kind == 'relative' else kind + '://' + name)


@contract('C23', targets=[WF + 'update_service_context'])
def answer(S):
    """any answer of any number of links, any permission"""
    conf = S.choice('configuration', {}, {'allow': {'http_links': True}}, {'allow': {'http_links': False}}, {'allow': {}})
    srv, ctx = service(S, **conf)
    links = S.records('links', link_of)
    first = None
    for link in links:
        if link['rel'] == OIC_ISSUER:
            first = link
            break
    resp = JRD(subject='acct:joe@example.com')
    if len(links) > 0 or S.flag('empty_list'):
        resp._dict['links'] = links
    out = S.call(srv.update_service_context, resp)
    ok, href = False, None
    if first is not None and 'href' in first:
        href = first['href']
        scheme = href.split(':')[0].lower() if ':' in href else ''
        ok = scheme == 'https' or scheme == 'http' and conf.get('allow', {}).get('http_links', False)
    if ok:
        S.check(out.ok and ctx.issuer == href, 'the issuer is the target of the first issuer link')
        S.cover('found')
    else:
        S.check(ctx.issuer == 'before', 'nothing else becomes the issuer')
        if first is not None:
            S.check(not out.ok, 'a link that may not be used is an error')
        S.cover('not found')
    S.check(ctx.provider_info == {} and ctx.client_id == '', 'nothing else is taken from the answer')


class Script:
    """stands for the HTTP library; answers in turn"""

    def __init__(self, answers):
        self.answers = answers
        self.sent = []

    def __call__(self, url, method='GET', **kwargs):
        self.sent.append((url, method))
        return self.answers[len(self.sent) - 1]


@contract('C23', targets=['oidcrp.rp_handler.RPHandler.do_webfinger', WF + 'update_service_context', WF + 'query',
                          'oidcrp.oauth2.Client.do_request', 'oidcrp.oauth2.Client.service_request'])
def from_user_to_metadata(S):
    """do_webfinger and what is fetched next"""
    tokens.install(S, [])
    ctx = make_context(S, issuer='', config={})
    ctx.keyjar = Keys()
    client = make_client(S, ctx)
    make_service(S, WebFinger, client=client)
    make_service(S, ProviderInfoDiscovery, client=client)
    rph = make_handler(S)

    def init_client(self, issuer):
        return client
    S.patch(RPHandler, 'init_client', init_client)
    host = S.str('host', no=('.', '=', ';', '?', '#', '/', '@'))
    user = 'acct:joe@' + host
    issuer = 'https://' + S.str('issuer', no=('.', '=', ';', '?', '#', '/'))
    kind = S.choice('answer', 'issuer', 'other relation', 'two', 'no links', 'error', 'not found', 'http')
    href = issuer
    if kind == 'http':
        href = 'http://op'
    links = [{'rel': OIC_ISSUER, 'href': href}]
    if kind == 'other relation':
        links = [{'rel': 'http://webfinger.net/rel/avatar', 'href': href}]
    elif kind == 'two':
        links = [{'rel': 'http://webfinger.net/rel/avatar', 'href': 'https://evil'}] + links + \
            [{'rel': OIC_ISSUER, 'href': 'https://evil'}]
    body = {'subject': user, 'links': links}
    if kind == 'no links':
        body = {'subject': user}
    elif kind == 'error':
        body = {'error': 'bad'}
    status = 404 if kind == 'not found' else 200
    http = Script([Response(status, {'content-type': 'application/json'}, json.dumps(body)),
                   Response(200, {'content-type': 'application/json'}, json.dumps(
                       {'issuer': issuer, 'authorization_endpoint': 'https://op/authz',
                        'jwks_uri': 'https://op/jwks', 'response_types_supported': ['code'],
                        'subject_types_supported': ['public'], 'token_endpoint': 'https://op/token',
                        'id_token_signing_alg_values_supported': ['RS256']}))])
    client.http = http
    out = S.call(rph.do_webfinger, user)
    S.check(len(http.sent) == 1 and http.sent[0][1] == 'GET', 'one question is asked')
    u = urlsplit(http.sent[0][0])
    S.check(u.scheme == 'https' and u.netloc == host and u.path == '/.well-known/webfinger', 'of the host of the user')
    S.check(parse_qs(u.query) == {'resource': [user], 'rel': [OIC_ISSUER]}, 'about the user')
    if kind in ('issuer', 'two'):
        S.check(out.ok and ctx.issuer == issuer, 'the issuer is the target of the first issuer link')
        nxt = S.call(rph.do_provider_info, client)
        S.check(http.sent[1] == (issuer + '/.well-known/openid-configuration', 'GET'), 'its metadata is fetched next')
        S.check(nxt.ok and nxt.value == issuer and ctx.issuer == issuer, 'and used')
        S.cover('found')
    else:
        S.check(ctx.issuer == '' and ctx.provider_info == {}, 'without a usable issuer link there is no issuer')
        S.cover('not found')
