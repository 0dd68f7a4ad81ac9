"""C30 authentications that run at the same time.

Ownership: what an operation of one session changes is disjoint from what an operation of another session
changes, and nothing else that they share is changed at all.  Then any interleaving of the two gives what
one after the other gives.  Where the code waits for the network, the other session's operation is run
in between (rely)."""
import copy
import json
import os
import sys
import threading
from urllib.parse import parse_qs
from urllib.parse import urlsplit

from dv.api import contract

from contracts import c28_request_object
from contracts import tokens
from contracts.c07_http import Response
from contracts.c26_isolation import dynamic, handler, metadata, static

import oidcmsg
from oidcmsg.message import Message
from oidcmsg.oidc import AccessTokenResponse
import oidcrp
from oidcrp.rp_handler import RPHandler
from oidcrp.rp_handler import backchannel_logout

RH = 'oidcrp.rp_handler.RPHandler.'
OP = 'https://a'
EVENT = {'http://schemas.openid.net/event/backchannel-logout': {}}


class Network:
    """the provider; while a request is on its way something else may happen"""

    def __init__(self):
        self.at = None
        self.between = None

    def __call__(self, url, method='GET', data='', headers=None, **kwargs):
        CALLS.append(url)
        if self.between is not None and len(CALLS) == self.at:
            f = self.between
            self.between = None
            RESULTS.append(f())
        who = ''
        SENT.append((url, data or ''))
        sent = (data or '') + (headers or {}).get('Authorization', '')
        for name in ('a', 'b'):
            if 'code-' + name in sent or 'refresh-' + name in sent or 'access-' + name in sent:
                who = name
        if url == OP + '/userinfo':
            body = {'sub': 'sub-' + who, 'name': 'name-' + who}
        else:
            body = {'access_token': 'access-' + who, 'token_type': 'Bearer', 'expires_in': 600,
                    'refresh_token': 'refresh-' + who, 'id_token': 'jwt.' + who, 'state': KEYS[who]}
        return Response(200, {'content-type': 'application/json'}, json.dumps(body))


CALLS = []
RESULTS = []
KEYS = {}


PKCE = {'pkce': {'function': 'oidcrp.oauth2.add_on.pkce.add_support',
                 'kwargs': {'code_challenge_length': 64, 'code_challenge_method': 'S256'}}}
SENT = []


def world(S, pkce=False):
    """a handler with one client and two sessions, each at the point where its operation can start"""
    while SENT:
        SENT.pop()
    while CALLS:
        CALLS.pop()
    while RESULTS:
        RESULTS.pop()
    now = S.now()
    S.assume(1000 < now < 10 ** 10)
    conf = static(S, 'a', OP)
    conf['client_id'] = 'client'
    conf['client_secret'] = 'secret'
    conf['provider_info']['end_session_endpoint'] = OP + '/logout'
    conf['provider_info']['backchannel_logout_session_supported'] = True
    conf['post_logout_redirect_uris'] = ['https://rp/bye']
    PKCE_IN_USE[0] = pkce
    if pkce:
        conf['add_ons'] = copy.deepcopy(PKCE)
    net = Network()
    rph = handler(S, {OP: conf}, net)
    tokens.install(S, [{'jwt': 'jwt.' + n, 'alg': 'RS256', 'good': True,
                        'claims': {'iss': OP, 'sub': 'sub-' + n, 'sid': 'sid-' + n, 'aud': ['client'],
                                   'nonce': 'nonce-' + n, 'iat': now, 'exp': now + 600}} for n in ('a', 'b')] +
                   [{'jwt': 'out.' + n, 'alg': 'RS256', 'good': True,
                     'claims': {'iss': OP, 'sub': 'sub-' + n, 'sid': 'sid-' + n, 'aud': ['client'], 'jti': 'j',
                                'events': EVENT, 'iat': now}} for n in ('a', 'b')])
    client = rph.client_setup(OP)
    client.client_get('service_context').keyjar.add(OP, 'key')
    for n in ('a', 'b'):
        KEYS[n] = 'state-' + n
    return rph, client


def prepare(client, name, op):
    state = client.client_get('service_context').state
    key = KEYS[name]
    state.create_state(OP, key)
    state.store_nonce2state('nonce-' + name, key)
    state.store_item(Message(state=key, response_type='code', redirect_uri='https://rp/' + name,
                             nonce='nonce-' + name, scope='openid'), 'auth_request', key)
    state.store_item(Message(code_verifier='verifier-' + name, code_challenge_method='S256'), 'pkce', key)
    if op not in ('begin', 'finalize'):
        state.store_item(Message(state=key, code='code-' + name), 'auth_response', key)
        state.store_item(AccessTokenResponse(**{
            'access_token': 'access-' + name, 'token_type': 'Bearer', 'refresh_token': 'refresh-' + name,
            '__expires_at': 10 ** 11, 'id_token': 'jwt.' + name,
            '__verified_id_token': {'iss': OP, 'sub': 'sub-' + name, 'sid': 'sid-' + name, 'aud': ['client'],
                                    'exp': 10 ** 11, 'iat': 1}}), 'token_response', key)
        state.store_sub2state('sub-' + name, key)
        state.store_sid2state('sid-' + name, key)


OPS = ('begin', 'finalize', 'refresh', 'userinfo', 'logout', 'clear', 'look', 'backchannel')


def operation(rph, client, name, op):
    key = KEYS[name]
    if op == 'begin':
        return rph.begin(OP)
    if op == 'finalize':
        return rph.finalize(OP, {'state': key, 'code': 'code-' + name})
    if op == 'refresh':
        return rph.refresh_access_token(key)
    if op == 'userinfo':
        return rph.get_user_info(key)
    if op == 'logout':
        return rph.logout(key)
    if op == 'clear':
        return rph.clear_session(key)
    if op == 'look':
        return rph.has_active_authentication(key), rph.get_valid_access_token(key)
    return backchannel_logout(client, request_args={'logout_token': 'out.' + name})


def exchanged(name):
    """the code of the session is exchanged once, with the verifier of the session where there is one"""
    client_uses_pkce = PKCE_IN_USE[0]
    forms = [parse_qs(body) for url, body in SENT if url == OP + '/token']
    mine = [f for f in forms if f.get('code') == ['code-' + name]]
    return len(mine) == 1 and mine[0].get('code_verifier') == (['verifier-' + name] if client_uses_pkce else None) and \
        mine[0]['redirect_uri'] == ['https://rp/' + name]


PKCE_IN_USE = [False]


def right(S, rph, client, name, op, value):
    """is this the result the operation has when it runs alone?"""
    key = KEYS[name]
    state = client.client_get('service_context').state
    if op == 'begin':
        return state.get_iss(value['state']) == OP and \
            state.get_item(Message, 'auth_request', value['state'])['state'] == value['state'] and \
            value['state'] not in (KEYS['a'], KEYS['b'])
    if op == 'finalize':
        item = state.get_item(Message, 'token_response', key)
        return exchanged(name) and value['state'] == key and value['token'] == 'access-' + name and \
            value['userinfo']['sub'] == 'sub-' + name and value['userinfo']['name'] == 'name-' + name and \
            value['id_token']['nonce'] == 'nonce-' + name and item['access_token'] == 'access-' + name and \
            state.get_state_by_sub('sub-' + name) == key and state.get_state_by_sid('sid-' + name) == key and \
            state.get_state_by_nonce('nonce-' + name) == key
    if op == 'refresh':
        item = state.get_item(Message, 'refresh_token_response', key)
        return value['access_token'] == 'access-' + name and item['access_token'] == 'access-' + name
    if op == 'userinfo':
        return value['sub'] == 'sub-' + name and \
            state.get_item(Message, 'user_info', key)['name'] == 'name-' + name
    if op == 'logout':
        return value['request']['id_token_hint'] == 'jwt.' + name and \
            state.get_state_by_logout_state(value['request']['state']) == key
    if op == 'clear':
        return not S.call(state.get_state, key).ok and not S.call(state.get_state_by_sub, 'sub-' + name).ok
    if op == 'look':
        return value == (True, ('access-' + name, 10 ** 11))
    return value == key


def fresh(S, client, outs):
    """random values do not coincide"""
    S.trust('fresh random states and nonces are letters and digits and differ from each other and from all values '
            'in use (C22)')
    state = client.client_get('service_context').state
    seen = [KEYS['a'], KEYS['b'], 'nonce-a', 'nonce-b']
    for out in outs:
        if out.ok and isinstance(out.value, dict) and 'url' in out.value and 'state' in out.value:
            key = out.value['state']
            S.assume(not key.startswith(('__', '::', '..', '==', 'ref')))
            for v in (key, state.get_item(Message, 'auth_request', out.value['state'])['nonce']):
                S.assume(v not in seen)
                seen.append(v)


@contract('C30', targets=[RH + 'begin', RH + 'finalize', RH + 'refresh_access_token', RH + 'get_user_info',
                          RH + 'logout', RH + 'clear_session', RH + 'has_active_authentication',
                          RH + 'get_valid_access_token', 'oidcrp.rp_handler.backchannel_logout'])
def ownership(S):
    """what two operations of different sessions change is disjoint, and nothing else is changed"""
    rph, client = world(S, S.flag('pkce'))
    one = S.choice('one', *OPS)
    other = S.choice('other', *OPS)
    prepare(client, 'a', one)
    prepare(client, 'b', other)
    db = client.client_get('service_context').state._db
    out_a, writes_a = S.footprint([rph], operation, rph, client, 'a', one)
    out_b, writes_b = S.footprint([rph], operation, rph, client, 'b', other)
    fresh(S, client, [out_a, out_b])
    S.check(out_a.ok and out_b.ok, 'the operations succeed')
    S.check(all(o is db for o, _ in writes_a) and all(o is db for o, _ in writes_b),
            'an operation changes nothing but the store of sessions')
    S.check(all(k != q for _, k in writes_a for _, q in writes_b),
            'operations of different sessions change different entries')
    S.check(right(S, rph, client, 'a', one, out_a.value) and right(S, rph, client, 'b', other, out_b.value),
            'each operation gives what it gives alone')
    S.cover(one)


WAITING = ('finalize', 'refresh', 'userinfo')


@contract('C30', targets=[RH + 'begin', RH + 'finalize', RH + 'refresh_access_token', RH + 'get_user_info',
                          RH + 'logout', RH + 'clear_session', RH + 'get_access_and_id_token', RH + 'get_tokens'])
def while_waiting(S):
    """an operation runs while another session waits for the provider"""
    rph, client = world(S, S.flag('pkce'))
    one = S.choice('one', *WAITING)
    other = S.choice('other', *OPS)
    prepare(client, 'a', one)
    prepare(client, 'b', other)
    net = client.http

    def between():
        return S.call(operation, rph, client, 'b', other)
    net.between = between
    net.at = S.choice('at', 1, 2) if one == 'finalize' else 1
    out = S.call(operation, rph, client, 'a', one)
    S.check(out.ok and len(RESULTS) == 1 and RESULTS[0].ok, 'the operations succeed')
    S.check(right(S, rph, client, 'a', one, out.value) and right(S, rph, client, 'b', other, RESULTS[0].value),
            'each operation gives what it gives alone')
    S.cover(one)


class Provider:
    """a provider nothing is known about beforehand"""

    def __init__(self):
        self.at = 0
        self.between = None

    def __call__(self, url, method='GET', **kwargs):
        CALLS.append(url)
        if self.between is not None and len(CALLS) == self.at:
            f = self.between
            self.between = None
            RESULTS.append(f())
        if method == 'POST':
            return Response(200, {'content-type': 'application/json'}, json.dumps(
                {'client_id': 'client-%d' % len(CALLS), 'client_secret': 'secret-%d' % len(CALLS),
                 'client_secret_expires_at': 0, 'redirect_uris': ['https://rp/cb']}))
        return Response(200, {'content-type': 'application/json'}, json.dumps(metadata(OP, OP)))


@contract('C30', targets=[RH + 'client_setup', RH + 'begin', RH + 'init_client', RH + 'do_provider_info',
                          RH + 'do_client_registration'])
def first_users(S):
    """the first two authentications with a provider: one begins while the other waits for the provider"""
    while CALLS:
        CALLS.pop()
    while RESULTS:
        RESULTS.pop()
    net = Provider()
    rph = handler(S, {'': dynamic()}, net)

    def between():
        return S.call(rph.begin, OP)
    net.between = between
    net.at = S.choice('at', 1, 2)
    out = S.call(rph.begin, OP)
    S.check(out.ok and len(RESULTS) == 1 and RESULTS[0].ok, 'both authentications begin')
    client = rph.issuer2rp[OP]
    context = client.client_get('service_context')
    for begun in (out, RESULTS[0]):
        got = S.call(rph.get_session_information, begun.value['state'])
        S.check(got.ok and got.value['iss'] == OP, 'both authentications can go on')
        request = S.call(context.state.get_item, Message, 'auth_request', begun.value['state'])
        S.check(request.ok and request.value['client_id'] == context.client_id,
                'the client that goes on is the one that began')
    S.cover('%d' % net.at)


@contract('C30', targets=[RH + 'client_setup', RH + 'begin', RH + 'init_client', RH + 'do_provider_info',
                          RH + 'do_client_registration'])
def different_providers(S):
    """authentications with two providers, each the first with its provider"""
    while CALLS:
        CALLS.pop()
    while RESULTS:
        RESULTS.pop()
    net = Providers()
    rph = handler(S, {'': dynamic()}, net)
    how = S.choice('how', 'apart', 'wait 1', 'wait 2', 'wait 3')
    if how == 'apart':
        out_a, writes_a = S.footprint([rph], rph.begin, 'https://a')
        out_b, writes_b = S.footprint([rph], rph.begin, 'https://b')
        S.check(all((o is rph.issuer2rp or o is rph.hash2issuer) and k == 'https://a' for o, k in writes_a) and
                all((o is rph.issuer2rp or o is rph.hash2issuer) and k == 'https://b' for o, k in writes_b),
                'an authentication changes the entries of its provider only')
    else:
        def between():
            return S.call(rph.begin, 'https://b')
        net.between = between
        net.at = int(how[5:])
        out_a = S.call(rph.begin, 'https://a')
        if not RESULTS:
            S.assume(net.at == 3)
            RESULTS.append(between())
        out_b = RESULTS[0]
    S.check(out_a.ok and out_b.ok, 'both authentications begin')
    for iss, begun in (('https://a', out_a), ('https://b', out_b)):
        got = S.call(rph.get_session_information, begun.value['state'])
        S.check(got.ok and got.value['iss'] == iss, 'both authentications can go on')
        context = rph.issuer2rp[iss].client_get('service_context')
        S.check(context.issuer == iss and context.client_id == 'client of ' + iss and
                begun.value['url'].startswith(iss + '/authz?'), 'each with its own provider and client')
        request = context.state.get_item(Message, 'auth_request', begun.value['state'])
        S.check(request['client_id'] == context.client_id and request['state'] == begun.value['state'],
                'each with its own provider and client')
    S.cover(how)


class Providers:
    """providers nothing is known about beforehand"""

    def __init__(self):
        self.at = 0
        self.between = None

    def __call__(self, url, method='GET', **kwargs):
        CALLS.append(url)
        if self.between is not None and len(CALLS) == self.at:
            f = self.between
            self.between = None
            RESULTS.append(f())
        iss = url[:9]
        if method == 'POST':
            return Response(200, {'content-type': 'application/json'}, json.dumps(
                {'client_id': 'client of ' + iss, 'client_secret': 'secret',
                 'client_secret_expires_at': 0, 'redirect_uris': ['https://rp/cb']}))
        return Response(200, {'content-type': 'application/json'}, json.dumps(metadata(iss, iss)))


def two_references(S, registered):
    """two requests by reference; the provider fetches the objects after both have been made"""
    disk = c28_request_object.install_disk(S)
    ctx, client, srv = c28_request_object.world(S, 'oidc')
    if registered:
        ctx.registration_response = Message(client_id='x', request_uris=['https://rp.example.org/req'])
    made = []
    for key in ('state-a', 'state-b'):
        out = S.call(srv.get_request_parameters, request_args={'state': key, 'response_type': ['code']},
                     request_method='reference')
        S.check(out.ok, 'the request is made')
        made.append((key, parse_qs(urlsplit(out.value['url']).query)['request_uri'][0]))
    if not registered:
        S.trust('fresh random file names differ (C22); construct_request_uri also looks for files of that name')
        S.assume(made[0][1] != made[1][1])
    base = 'https://rp.example.org/'
    for key, ref in made:
        name = ref[len(base):] if registered else './' + ref[len(base):]
        token = tokens.signed(disk.files[name])
        is_last = key == 'state-b'
        S.check(json.loads(token['payload'])['state'] == key, 'the reference leads to the request made last'
                if registered and is_last else 'each reference leads to the request of its session')
    S.cover('made')


@contract('C30', targets=['oidcrp.oidc.authorization.Authorization.store_request_on_file',
                          'oidcrp.oidc.utils.construct_request_uri'])
def by_reference(S):
    """two request objects passed by reference"""
    two_references(S, False)


@contract('C30', targets=['oidcrp.oidc.authorization.Authorization.store_request_on_file'])
def same_registered_uri(S):
    """two request objects passed by the one reference that is registered (known finding)"""
    two_references(S, True)


class Switch:
    """two threads that take turns: the first runs k lines of the library, the second m, then both to their ends"""

    def __init__(self, k, m):
        self.left = {'first': k, 'second': m}
        self.homes = (os.path.dirname(oidcrp.__file__), os.path.dirname(oidcmsg.__file__))
        self.paused = threading.Event()
        self.ended = threading.Event()
        self.other = None
        self.out = {}

    def switch(self, who):
        if who == 'first':
            self.other.start()
            self.paused.wait(1)
        else:
            self.paused.set()
            self.ended.wait(1)

    def tracer(self, who):
        def local(frame, event, arg):
            if event == 'line' and self.left[who] >= 0:
                self.left[who] -= 1
                if self.left[who] < 0:
                    self.switch(who)
            return local

        def entered(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.homes) else None
        return entered

    def run(self, who, f):
        sys.settrace(self.tracer(who))
        try:
            self.out[who] = f()
        finally:
            sys.settrace(None)
            (self.ended if who == 'first' else self.paused).set()

    def both(self, f, g):
        self.other = threading.Thread(target=self.run, args=('second', g), daemon=True)
        self.run('first', f)
        if self.other.ident is None:
            self.other.start()
        self.other.join(10)
        return self.out['first'], self.out.get('second')


@contract('C30', targets=[RH + 'begin', RH + 'finalize', RH + 'refresh_access_token', RH + 'get_user_info',
                          RH + 'logout', RH + 'clear_session', 'oidcrp.rp_handler.backchannel_logout'],
          kind='concrete', bounded='native executions of two threads with one switch of threads at a line of the '
          'library in each of the two operations; the places are drawn')
def interleaved(S):
    """two threads, switched in the middle of the operations; complements ownership where reading is concerned"""
    rph, client = world(S, S.flag('pkce'))
    one = S.choice('one', *OPS)
    other = S.choice('other', *OPS)
    prepare(client, 'a', one)
    prepare(client, 'b', other)
    s = Switch(S.int('lines_of_one', 0, 700), S.int('lines_of_other', 0, 700))
    out_a, out_b = s.both(lambda: S.call(operation, rph, client, 'a', one),
                          lambda: S.call(operation, rph, client, 'b', other))
    S.check(out_b is not None and out_a.ok and out_b.ok, 'the operations succeed')
    S.check(right(S, rph, client, 'a', one, out_a.value) and right(S, rph, client, 'b', other, out_b.value),
            'each operation gives what it gives alone')
    S.cover(one)
