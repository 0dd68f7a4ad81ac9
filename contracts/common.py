"""Preconditions shared by the contracts: well-formed contexts, clients, handlers."""
from oidcrp.oidc import RP
from oidcrp.rp_handler import RPHandler
from oidcrp.service_context import ServiceContext
from oidcrp.state_interface import StateInterface


class KeyJarStub:
    """stands for a key jar where its content plays no part"""

    def __init__(self, owner=''):
        self.owner = owner
        self.added = []

    def add_symmetric(self, issuer_id, key, usage=None):
        self.added.append(('symmetric', issuer_id, key))

    def add_url(self, issuer_id, url, **kwargs):
        self.added.append(('url', issuer_id, url))

    def import_jwks(self, jwks, issuer_id):
        self.added.append(('jwks', issuer_id, jwks))


def make_state(S, open_store=False):
    si = StateInterface()
    if open_store:
        si._db = S.open_dict('db')
    return si


def make_context(S, **attrs):
    """a service context as __init__ leaves it, with the given attributes"""
    ctx = S.obj(ServiceContext, config={}, keyjar=KeyJarStub(), state=StateInterface(),
                kid={'sig': {}, 'enc': {}}, base_url='', allow={}, client_preferences={},
                args={}, add_on={}, hash2issuer={}, httpc_params={}, issuer='', client_id='',
                client_secret='', client_secret_expires_at=0, behaviour={}, provider_info={},
                post_logout_redirect_uris=[], redirect_uris=[], register_args={},
                registration_response={}, requests_dir='', callback={}, clock_skew=15,
                hash_seed=b'seed', verify_args=None)
    for k in attrs:
        setattr(ctx, k, attrs[k])
    return ctx


def make_client(S, ctx, **services):
    return S.obj(RP, _service_context=ctx, _service=dict(services), httpc_params={'verify': True},
                 verify_ssl=True, http=None)


def make_service(S, cls, ctx=None, conf=None, client=None, **kw):
    """the real constructor of the service class, on a client around ctx"""
    if client is None:
        client = make_client(S, ctx)
    srv = cls(client.client_get, conf=conf, **kw)
    client._service[srv.service_name] = srv
    return srv


def make_handler(S, **attrs):
    """a relying party handler as __init__ leaves it, serving the given issuers"""
    rph = S.obj(RPHandler, base_url='https://rp.example.org', hash_seed=b'seed', jwks_uri='',
                keyjar=KeyJarStub(), client_configs={}, services={}, issuer2rp={}, hash2issuer={},
                httplib=None, httpc_params={'verify': True}, client_authn_factory=None,
                client_authn_method={}, jwks={}, jwks_path='', module_dirs=[],
                state_db=None, extra={}, client_cls=RP)
    for k in attrs:
        setattr(rph, k, attrs[k])
    return rph


def session_key(S, name):
    """a session key as the library makes them: not of the form of a nonce index"""
    k = S.str(name)
    S.assume(not k.startswith('__'))
    return k


def free_key(S, name):
    """a session key as the library makes them: none of the reserved index forms"""
    k = S.str(name)
    S.assume(not k.startswith('__'))
    S.assume(not k.startswith('::'))
    S.assume(not k.startswith('..'))
    S.assume(not k.startswith('=='))
    S.assume(not (k.startswith('ref') and k.endswith('ref')))
    return k
