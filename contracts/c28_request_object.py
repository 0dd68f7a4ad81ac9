"""C28 a request object or pushed request carries the request it stands for."""
import json
from urllib.parse import parse_qs
from urllib.parse import urlsplit

import oidcrp.oidc.authorization
import oidcrp.oidc.utils

from dv.api import contract

from contracts import tokens
from contracts.c07_http import Response
from contracts.c24_wire import wire
from contracts.common import free_key, make_client, make_context, make_service

from oidcmsg.message import Message
from oidcmsg.oauth2 import AuthorizationRequest
from oidcrp.oauth2 import authorization as o2_authz
from oidcrp.oauth2.add_on import do_add_ons
from oidcrp.oidc import authorization as oidc_authz

AZ = 'oidcrp.oidc.authorization.Authorization.'
KTY = {'HS256': 'oct', 'RS256': 'RSA', 'RS384': 'RSA', 'ES256': 'EC'}
EP = 'https://op/authz'


class File:
    def __init__(self, files, name):
        self.files = files
        self.name = name
        files[name] = ''

    def write(self, text):
        self.files[self.name] = self.files[self.name] + text

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


class Paths:
    def __init__(self, files, dirs):
        self.files = files
        self.dirs = dirs

    def isdir(self, name):
        return name in self.dirs

    def exists(self, name):
        return name in self.files

    def join(self, a, b):
        return a + '/' + b


class Disk:
    """stands for the file system"""

    def __init__(self):
        self.files = {}
        self.dirs = []
        self.path = Paths(self.files, self.dirs)

    def makedirs(self, name):
        self.dirs.append(name)


def install_disk(S):
    disk = Disk()

    def fake_open(name, mode='r'):
        return File(disk.files, name)
    S.patch(oidcrp.oidc.authorization, 'open', fake_open)
    S.patch(oidcrp.oidc.utils, 'os', disk)
    return disk


def world(S, flavour, scope=('openid', 'a&b'), issuer=None, client_id=None, pad=''):
    tokens.install_signer(S, pad)
    ctx = make_context(S, issuer='https://op', client_id=client_id or S.str('client_id'), client_secret=S.str('secret'),
                       base_url='https://rp.example.org')
    ctx.redirect_uris = [S.str('redirect_uri')]
    ctx.behaviour = {'response_types': ['code'], 'scope': list(scope)}
    ctx.provider_info = {'issuer': issuer or S.str('issuer'), 'authorization_endpoint': EP,
                         'pushed_authorization_request_endpoint': 'https://op/push'}
    ctx.keyjar = tokens.KeyRing([tokens.Key(kty, owner, kty + '-kid') for kty in ('RSA', 'oct', 'EC')
                                 for owner in (ctx.provider_info['issuer'], '')])
    S.assume(ctx.provider_info['issuer'] != ctx.client_id)
    cls = oidc_authz.Authorization if flavour == 'oidc' else o2_authz.Authorization
    client = make_client(S, ctx)
    return ctx, client, make_service(S, cls, client=client)


def arguments(S, flavour):
    args = {'state': free_key(S, 'state'), 'response_type': ['code']}
    extra = S.choice('extra', 'none', 'text', 'many')
    if extra == 'text':
        args['login_hint'] = S.str('login_hint')
    elif extra == 'many':
        args['max_age'] = S.int('max_age', 0)
        if flavour == 'oidc':
            args['prompt'] = ['login', 'consent']
            args['acr_values'] = ['a', 'b']
            args['claims'] = {'id_token': {'email': {'essential': True}}}
    return args


def check_object(S, token, ctx, plain, alg, issuer, more=()):
    """the token says what the request says, for whom and by whom"""
    t = tokens.signed(token)
    S.check(t is not None, 'the request object is a token made here')
    S.check(t['alg'] == alg, 'it is signed with the algorithm asked for or registered')
    if alg == 'none':
        S.check(t['key'] is None, 'it is unsigned only if that was asked for')
    else:
        S.check(t['key'] is not None and t['key'].owner == '' and t['key'].kty == KTY[alg],
                'it is signed with a key of this client')
    claims = json.loads(t['payload'])
    S.check(claims['iss'] == ctx.client_id, 'its issuer is this client')
    S.check(claims['aud'] == [issuer] or claims['aud'] == issuer, 'its audience is the provider')
    S.check(claims['iat'] == S.now(), 'it is issued now')
    for k in plain:
        S.check(k in claims and claims[k] == plain[k], 'it contains every parameter of the request')
    for k in claims:
        S.check(k in plain or k in ('iss', 'aud', 'iat') or k in more, 'it contains nothing else')
    return claims


def front(S, info, ctx, plain, names):
    """the URL the user is sent to"""
    u = urlsplit(info['url'])
    S.check(u.scheme + '://' + u.netloc + u.path == EP, 'the user is sent to the authorization endpoint')
    q = parse_qs(u.query, keep_blank_values=True)
    for k in names:
        S.check(k in q and q[k] == wire(k, plain[k]), 'what the protocol requires is in the URL')
    return q


OBJECT = [AZ + 'oidc_pre_construct', AZ + 'oidc_post_construct', AZ + 'construct_request_parameter',
          AZ + 'get_request_object_signing_alg', AZ + 'store_request_on_file',
          'oidcrp.oidc.utils.construct_request_uri', 'oidcrp.oidc.utils.request_object_encryption',
          'oidcrp.service_context.ServiceContext.filename_from_webname',
          'oidcrp.service.Service.get_request_parameters']


def made(S, disk, ctx, srv, args, kw, alg, issuer):
    """make the request and look at all of it"""
    method = S.choice('method', 'value', 'reference')
    if S.flag('behaviour'):
        kw = {'behaviour_args': dict(kw)}
        kw['behaviour_args']['request_param'] = 'request' if method == 'value' else 'request_uri'
    else:
        kw['request_method'] = method
    before = json.dumps(ctx.behaviour)
    out = S.call(srv.get_request_parameters, request_args=dict(args), **kw)
    S.check(out.ok, 'the request is made')
    S.check(json.dumps(ctx.behaviour) == before, 'the configuration is not changed')
    stored = json.loads(ctx.state.get_state(args['state']).to_json())['auth_request']
    plain = json.loads(stored) if isinstance(stored, str) else stored
    for k in args:
        S.check(k in plain and wire(k, plain[k]) == wire(k, args[k]) or k == 'claims' and plain[k] == args[k],
                'the request is stored as it was asked for')
    S.check(plain['client_id'] == ctx.client_id and plain['redirect_uri'] == ctx.redirect_uris[0] and 'nonce' in plain,
            'the request is complete')
    q = front(S, out.value, ctx, plain, ('client_id', 'response_type', 'scope', 'redirect_uri'))
    name = 'request' if method == 'value' else 'request_uri'
    S.check(name in q and len(q) == 5, 'the URL carries the reference instead of the parameters it replaces')
    ref = q[name][0]
    if method == 'value':
        S.check(disk.files == {}, 'nothing is written')
        S.cover('by value')
    else:
        base = 'https://rp.example.org/requests/'
        S.check(ref.startswith(base), 'the reference leads to this relying party')
        S.check(len(disk.files) == 1 and './requests/' + ref[len(base):] in disk.files, 'and there to the object')
        ref = [disk.files[f] for f in disk.files][0]
        S.cover('by reference')
    check_object(S, ref, ctx, plain, alg, issuer)


@contract('C28', targets=OBJECT)
def request_object(S):
    """by value and by reference, for every content of the request"""
    disk = install_disk(S)
    ctx, client, srv = world(S, 'oidc')
    args = arguments(S, 'oidc')
    if S.flag('issuer not in metadata'):
        del ctx.provider_info['issuer']
        issuer = ctx.issuer
    else:
        issuer = ctx.provider_info['issuer']
    made(S, disk, ctx, srv, args, {}, 'RS256', issuer)


@contract('C28', targets=OBJECT)
def signed_as_asked(S):
    """by value and by reference, for every source of the algorithm"""
    disk = install_disk(S)
    ctx, client, srv = world(S, 'oidc')
    args = {'state': free_key(S, 'state'), 'response_type': ['code']}
    kw = {}
    alg = 'RS256'
    src = S.choice('algorithm', 'registered', 'asked', 'asked and registered', 'none', 'empty')
    if 'registered' in src:
        alg = S.choice('registered', 'ES256', 'HS256')
        ctx.behaviour['request_object_signing_alg'] = alg
    if 'asked' in src:
        alg = S.choice('asked', 'RS384', 'ES256')
        kw[S.choice('name', 'request_object_signing_alg', 'algorithm')] = alg
    if src == 'none':
        alg = 'none'
        kw['request_object_signing_alg'] = 'none'
    elif src == 'empty':
        kw['algorithm'] = ''
    made(S, disk, ctx, srv, args, kw, alg, ctx.provider_info['issuer'])


@contract('C28', targets=[AZ + 'construct_request_parameter', AZ + 'oidc_post_construct'])
def options(S):
    """validity and identifier of the request object"""
    install_disk(S)
    ctx, client, srv = world(S, 'oidc')
    args = {'state': free_key(S, 'state'), 'response_type': ['code']}
    beh = {'request_param': 'request'}
    seconds = S.int('seconds', 1, 100000)
    which = S.choice('option', 'lifetime', 'expires_in', 'jti', 'issuer', 'recv')
    if which == 'lifetime':
        beh['lifetime'] = seconds
    elif which == 'expires_in':
        beh['expires_in'] = seconds
    elif which == 'jti':
        beh['with_jti'] = True
    elif which == 'recv':
        beh['recv'] = S.str('recv')
    elif which == 'issuer':
        beh['issuer'] = ctx.client_id
    given = dict(beh)
    out = S.call(srv.get_request_parameters, request_args=dict(args), behaviour_args=beh)
    S.check(out.ok, 'the request is made')
    S.check(beh == given, 'the arguments of the caller are not changed')
    stored = json.loads(ctx.state.get_state(args['state']).to_json())['auth_request']
    plain = json.loads(stored) if isinstance(stored, str) else stored
    q = front(S, out.value, ctx, plain, ('client_id', 'response_type', 'scope', 'redirect_uri'))
    S.check('request' in q and len(q) == 5, 'the URL carries the reference instead of the parameters it replaces')
    claims = check_object(S, q['request'][0], ctx, plain, 'RS256', beh.get('recv', ctx.provider_info['issuer']),
                          ('exp', 'jti'))
    S.check(('exp' in claims) == (which in ('lifetime', 'expires_in')), 'it expires if that was asked for')
    if 'exp' in claims:
        S.check(claims['exp'] == S.now() + seconds, 'it expires when that was asked for')
    S.check(('jti' in claims) == (which == 'jti'), 'it has an identifier if that was asked for')
    S.cover('made')


@contract('C28', targets=OBJECT)
def one_after_the_other(S):
    """two requests of one client: each object says what its own request says"""
    disk = install_disk(S)
    ctx, client, srv = world(S, 'oidc', issuer='https://op.example.org', client_id='me')
    method = S.choice('method', 'value', 'reference')
    beh = {'request_param': 'request' if method == 'value' else 'request_uri'}
    if S.flag('with identifier'):
        beh['with_jti'] = True
    extras = S.choice('extras of the first', {}, {'login_hint': 'alice'}, {'max_age': 10, 'prompt': ['login']})
    refs, ids = [], []
    for i in (0, 1):
        if i:
            S.later(S.int('pause', 0, 10 ** 6))
        args = {'state': 'state%d' % i, 'response_type': ['code']}
        if i == 0:
            args.update(extras)
        seen = list(disk.files)
        out = S.call(srv.get_request_parameters, request_args=args, behaviour_args=beh)
        S.check(out.ok, 'the request is made')
        stored = json.loads(ctx.state.get_state('state%d' % i).to_json())['auth_request']
        plain = json.loads(stored) if isinstance(stored, str) else stored
        S.check('login_hint' not in plain or i == 0, 'the request is stored as it was asked for')
        q = front(S, out.value, ctx, plain, ('client_id', 'response_type', 'scope', 'redirect_uri'))
        ref = q[beh['request_param']][0]
        S.check(ref not in refs, 'each request has a reference of its own')
        refs.append(ref)
        if method == 'reference':
            new = [f for f in disk.files if f not in seen]
            S.check(len(new) == 1, 'each request has a file of its own')
            ref = disk.files[new[0]]
        claims = check_object(S, ref, ctx, plain, 'RS256', 'https://op.example.org', ('jti',))
        if 'with_jti' in beh:
            S.check(claims['jti'] not in ids, 'each object has an identifier of its own')
            ids.append(claims['jti'])
    S.cover(method)


@contract('C28', targets=OBJECT)
def size(S):
    """neither the size of the request nor that of the object decides how it is passed"""
    disk = install_disk(S)
    ctx, client, srv = world(S, 'oidc', issuer='https://op.example.org', client_id='me',
                             pad=S.choice('pad', '', 'p' * 300, 'p' * 3000, 'p' * 70000))
    args = {'state': 'state', 'response_type': ['code'],
            'login_hint': S.choice('hint', 'h', 'h' * 3000, 'h' * 70000)}
    made(S, disk, ctx, srv, args, {}, 'RS256', ctx.provider_info['issuer'])


@contract('C28', targets=OBJECT)
def cannot_sign(S):
    """without the key that is needed there is no request, least of all an unsigned one"""
    disk = install_disk(S)
    ctx, client, srv = world(S, 'oidc', issuer='https://op.example.org', client_id='me')
    alg = S.choice('alg', 'RS256', 'ES256', 'HS256')
    left = S.choice('keys', 'none', "not ours", 'other kinds')
    if left == 'none':
        ctx.keyjar.keys = []
    elif left == 'not ours':
        ctx.keyjar.keys = [k for k in ctx.keyjar.keys if k.owner != '']
    else:
        ctx.keyjar.keys = [k for k in ctx.keyjar.keys if k.kty != KTY[alg]]
    args = {'state': free_key(S, 'state'), 'response_type': ['code']}
    kw = {'request_method': S.choice('method', 'value', 'reference')}
    if S.flag('registered'):
        ctx.behaviour['request_object_signing_alg'] = alg
    else:
        kw['algorithm'] = alg
    out = S.call(srv.get_request_parameters, request_args=args, **kw)
    S.check(not out.ok, 'what cannot be signed is not sent')
    S.check(disk.files == {}, 'nor stored')
    S.cover('refused')


@contract('C28', targets=[AZ + 'store_request_on_file', 'oidcrp.service_context.ServiceContext.filename_from_webname'])
def registered_uri(S):
    """by reference to a registered request_uri"""
    disk = install_disk(S)
    ctx, client, srv = world(S, 'oidc')
    args = {'state': free_key(S, 'state'), 'response_type': ['code']}
    path = S.str('path', no=('/', '.'))
    where = S.choice('where', '', 'requests/', 'elsewhere')
    uri = 'https://other/' + path if where == 'elsewhere' else 'https://rp.example.org/' + where + path
    ctx.registration_response = Message(client_id='x', request_uris=[uri, 'https://rp.example.org/second'])
    out = S.call(srv.get_request_parameters, request_args=dict(args), request_method='reference')
    if where == 'elsewhere':
        S.check(not out.ok and disk.files == {}, 'a reference that is not served here is refused')
        S.cover('refused')
        return
    S.check(out.ok, 'the request is made')
    q = parse_qs(urlsplit(out.value['url']).query)
    S.check(q['request_uri'] == [uri], 'the registered reference is used')
    S.check(len(disk.files) == 1, 'one object is written')
    name = where + path
    S.check(name in disk.files, 'where the reference leads')
    stored = json.loads(ctx.state.get_state(args['state']).to_json())['auth_request']
    plain = json.loads(stored) if isinstance(stored, str) else stored
    check_object(S, disk.files[name], ctx, plain, 'RS256', ctx.provider_info['issuer'])
    S.cover('written')


class NoSuitableEncryptionKey(Exception):
    pass


class Encrypter:
    """assumed contract of encryption: the token carries this text for the holder of this key"""

    MADE = []

    def __init__(self, msg=None, alg='', enc='', **kwargs):
        self.msg = msg
        self.alg = alg
        self.enc = enc
        self.more = {}

    def __setitem__(self, k, v):
        self.more[k] = v

    def encrypt(self, keys=None, **kwargs):
        if not keys:
            raise NoSuitableEncryptionKey('none')
        token = 'encrypted.token.%d' % len(Encrypter.MADE)
        Encrypter.MADE.append({'token': token, 'msg': self.msg, 'alg': self.alg, 'enc': self.enc, 'key': keys[0]})
        return token


ENC_KTY = {'RSA-OAEP': 'RSA', 'ECDH-ES': 'EC', 'A128KW': 'oct', 'dir': 'oct'}


@contract('C28', targets=['oidcrp.oidc.utils.request_object_encryption', AZ + 'construct_request_parameter'])
def encrypted(S):
    """the signed request object is encrypted to the provider"""
    S.trust('cryptojwt: JWE(text, alg, enc).encrypt(keys) gives a token that only the owner of the first of the keys '
            'can read')
    install_disk(S)
    ctx, client, srv = world(S, 'oidc', issuer='https://op.example.org/é', client_id='me')
    while Encrypter.MADE:
        Encrypter.MADE.pop()
    S.patch(oidcrp.oidc.utils, 'JWE', Encrypter)
    args = {'state': free_key(S, 'state'), 'response_type': ['code']}
    beh = {'request_param': 'request'}
    alg = S.choice('alg', 'RSA-OAEP', 'A128KW', 'dir')
    enc = S.choice('enc', 'A256GCM', '', None)
    place = beh if S.flag('in call') else ctx.behaviour
    place['request_object_encryption_alg'] = alg
    if enc is not None:
        (beh if S.flag('enc in call') else ctx.behaviour)['request_object_encryption_enc'] = enc
    target = ctx.provider_info['issuer']
    who = S.choice('target', 'default', 'given', 'unknown')
    if who == 'unknown':
        target = ctx.issuer = ''
        del ctx.provider_info['issuer']
    elif who == 'given':
        target = S.choice('other', 'https://op', 'https://elsewhere')
        beh['target'] = target
        if target == 'https://op':
            ctx.keyjar.keys.append(tokens.Key(ENC_KTY[alg], 'https://op', 'op-kid'))
    has_key = target not in ('https://elsewhere', '')
    if alg != 'dir' and S.flag('kid'):
        beh['enc_kid'] = S.choice('which', 'op-kid', ENC_KTY[alg] + '-kid')
        has_key = has_key and (beh['enc_kid'] == 'op-kid') == (target == 'https://op')
    out = S.call(srv.get_request_parameters, request_args=dict(args), behaviour_args=beh)
    if not enc or not has_key:
        S.check(not out.ok, 'what cannot be encrypted is not sent')
        S.cover('refused')
        return
    S.check(out.ok, 'the request is made')
    stored = json.loads(ctx.state.get_state(args['state']).to_json())['auth_request']
    plain = json.loads(stored) if isinstance(stored, str) else stored
    q = front(S, out.value, ctx, plain, ('client_id', 'response_type', 'scope', 'redirect_uri'))
    S.check('request' in q and len(q) == 5, 'the URL carries the reference instead of the parameters it replaces')
    S.check(len(Encrypter.MADE) == 1 and Encrypter.MADE[0]['token'] == q['request'][0], 'the object is encrypted')
    t = Encrypter.MADE[0]
    S.check(t['alg'] == alg and t['enc'] == enc, 'as agreed with the provider')
    S.check(t['key'].owner == target and (alg == 'dir' or t['key'].kty == ENC_KTY[alg]), 'with a key of the receiver')
    check_object(S, t['msg'], ctx, plain, 'RS256', ctx.provider_info['issuer'])
    S.cover('encrypted')


class Endpoint:
    """the network: gives one answer"""

    def __init__(self, answer):
        self.answer = answer
        self.calls = []

    def get(self, url, data=None, **kwargs):
        self.calls.append((url, data))
        return self.answer

    def post(self, url, data=None, **kwargs):
        self.calls.append((url, data))
        return self.answer


def pushed(S, flavour, args, fmt, rule, alg, answer):
    """push the request, give everything to look at"""
    ctx, client, srv = world(S, flavour, issuer='https://op.example.org/é')
    S.assume(ctx.client_id != 'https://op.example.org/é')
    # algorithms of other things
    ctx.behaviour['request_object_signing_alg'] = 'RS384'
    ctx.behaviour['id_token_signed_response_alg'] = 'PS256'
    net = Endpoint(answer)
    do_add_ons({'push': {'function': 'oidcrp.oauth2.add_on.pushed_authorization.add_support',
                         'kwargs': {'body_format': fmt, 'merge_rule': rule, 'signing_algorithm': alg,
                                    'http_client': net}}}, {'authorization': srv})
    out = S.call(srv.get_request_parameters, request_args=dict(args))
    stored = json.loads(ctx.state.get_state(args['state']).to_json())['auth_request']
    plain = json.loads(stored) if isinstance(stored, str) else stored
    S.check(len(net.calls) == 1 and net.calls[0][0] == 'https://op/push', 'the request is pushed to the provider')
    body = parse_qs(net.calls[0][1], keep_blank_values=True)
    if fmt == 'urlencoded':
        for k in plain:
            S.check(k in body and (k == 'claims' and json.loads(body[k][0]) == plain[k] or body[k] == wire(k, plain[k])),
                    'all parameters are pushed')
        S.check(len(body) == len(plain), 'nothing else is pushed')
    else:
        S.check('request' in body, 'the object is pushed')
        check_object(S, body['request'][0], ctx, plain, alg, ctx.provider_info['issuer'])
        for k in body:
            S.check(k == 'request' or k in plain and body[k] == wire(k, plain[k]), 'nothing else is pushed')
    return ctx, out, plain


PUSH = ['oidcrp.oauth2.add_on.pushed_authorization.push_authorization',
        'oidcrp.oauth2.add_on.pushed_authorization.add_support', 'oidcrp.service.Service.get_request_parameters']


@contract('C28', targets=PUSH)
def push(S):
    """what is pushed, and what the user is then sent with"""
    flavour = S.choice('flavour', 'oauth2', 'oidc')
    args = arguments(S, flavour)
    ref = S.str('ref')
    S.assume(len(ref) > 0)
    fmt = S.choice('format', 'jws', 'urlencoded')
    rule = S.choice('rule', 'strict', 'lax')
    alg = S.choice('alg', 'RS256', 'ES256', 'HS256') if fmt == 'jws' else 'RS256'
    answer = Response(S.choice('status', 200, 201), {'content-type': 'application/json'},
                      json.dumps({'request_uri': ref, 'expires_in': 60}))
    ctx, out, plain = pushed(S, flavour, args, fmt, rule, alg, answer)
    S.check(out.ok, 'the request is made')
    names = ['client_id']
    if rule == 'lax':
        names = ['client_id', 'response_type']
        if flavour == 'oidc':
            names = names + ['scope', 'redirect_uri']
    q = front(S, out.value, ctx, plain, names)
    S.check('request_uri' in q and q['request_uri'] == [ref], 'the URL carries the reference')
    S.check(len(q) == len(names) + 1, 'the URL carries the reference instead of the parameters it replaces')
    S.cover('pushed')


@contract('C28', targets=PUSH)
def push_fails(S):
    """whatever the provider answers, without a reference there is no request"""
    flavour = S.choice('flavour', 'oauth2', 'oidc')
    args = {'state': free_key(S, 'state'), 'response_type': ['code']}
    status = S.int('status', 100, 599)
    text = S.choice('body', json.dumps({'request_uri': 'urn:ref'}), json.dumps({'error': 'invalid_request'}), '{}',
                    '', 'garbage')
    S.assume(text != json.dumps({'request_uri': 'urn:ref'}) or status != 200 and status != 201)
    ctx, out, plain = pushed(S, flavour, args, S.choice('format', 'jws', 'urlencoded'),
                             S.choice('rule', 'strict', 'lax'), 'RS256', Response(status, {'content-type': 'application/json'}, text))
    S.check(not out.ok, 'a failed push is an error')
    S.cover('failed')
