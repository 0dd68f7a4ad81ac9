"""A relying party with two configured providers and a network that only exists here."""
import json
from urllib.parse import parse_qs, urlsplit

from cryptojwt.key_jar import init_key_jar
from oidcrp.rp_handler import RPHandler

OP1, OP2 = 'https://op1.example.com', 'https://op2.example.com'
KEYS = init_key_jar(key_defs=[{'type': 'RSA', 'use': ['sig']}], issuer_id='op')


class Response:
    def __init__(self, status, body, ctype='application/json', url=''):
        self.status_code, self.url = status, url
        self.text = body if isinstance(body, str) else json.dumps(body)
        self.headers = {'content-type': ctype}


class Net:
    """answers requests from a list (or a function) and remembers them"""

    def __init__(self):
        self.answers, self.sent = [], []

    def __call__(self, url, method='GET', **kwargs):
        self.sent.append((method, url, kwargs))
        a = self.answers.pop(0)
        return a(method, url, kwargs) if callable(a) else a

    request = __call__


def config(issuer, n, **kw):
    c = {'issuer': issuer, 'client_id': 'client-%d' % n, 'client_secret': 'a secret that is long enough %d' % n,
         'redirect_uris': ['https://rp.example.org/cb/%d' % n],
         'behaviour': {'response_types': ['code'], 'scope': ['openid', 'profile'],
                       'token_endpoint_auth_method': 'client_secret_basic'},
         'provider_info': {'issuer': issuer, 'authorization_endpoint': issuer + '/authorization',
                           'token_endpoint': issuer + '/token', 'userinfo_endpoint': issuer + '/userinfo',
                           'end_session_endpoint': issuer + '/logout',
                           'jwks_uri': issuer + '/jwks'}}
    c.update(kw)
    return c


def handler(configs=None, services=None, **kw):
    net = Net()
    if configs is None:
        configs = {OP1: config(OP1, 1), OP2: config(OP2, 2)}
    rph = RPHandler('https://rp.example.org', configs, keyjar=KEYS, http_lib=net, services=services, **kw)
    return rph, net


def params(info):
    return {k: v[0] for k, v in parse_qs(urlsplit(info['url']).query).items()}


def must(cond, text):
    if not cond:
        print('BROKEN: ' + text)
        raise SystemExit(1)


def refused(f, *args, **kw):
    try:
        f(*args, **kw)
    except Exception as err:
        return err
    return None
