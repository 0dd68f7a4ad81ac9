"""Bounded: histories of whole logins with two providers, drawn at random and executed natively, next to a reference
that says what the properties say.  They complement the contracts, each of which looks at one operation (or two)."""
import base64
import copy
import hashlib
import json
from urllib.parse import parse_qs
from urllib.parse import urlsplit

import oidcmsg.oidc

from dv.api import contract

from contracts import tokens
from contracts.c07_http import Response
from contracts.c26_isolation import handler, static
from contracts.c30_concurrent import PKCE

from oidcmsg.oauth2 import is_error_message
from oidcrp.rp_handler import backchannel_logout

RH = 'oidcrp.rp_handler.RPHandler.'
LOGIN = [RH + n for n in ('begin', 'finalize', 'refresh_access_token', 'get_user_info', 'logout', 'clear_session',
                          'has_active_authentication', 'get_valid_access_token', 'state2issuer')] + \
        ['oidcrp.rp_handler.backchannel_logout']
BOUND = 'native executions of histories of 14 operations on logins with two providers, drawn at random'
EVENT = {'http://schemas.openid.net/event/backchannel-logout': {}}
TYPES = ('code', 'id_token token', 'code id_token', 'code id_token token')
SUBJECTS = ('u1', 'u2')
SIDS = ('s1', 's2', 's3')


def hash_of(value, alg=''):
    return 'left half of the hash of ' + value


class Stop(Exception):
    """what follows has no meaning"""


class World:
    def __init__(self, S, aspect):
        self.S = S
        self.aspect = aspect
        self.toks = []
        self.sessions = {}
        self.bound = {}          # (issuer, kind, value) -> state
        self.sent = []
        self.answer = None
        self.owner = {}          # access token -> session
        self.n = 0
        self.types = {'https://a': S.choice('type_a', *TYPES), 'https://b': S.choice('type_b', *TYPES)}
        self.pkce = S.flag('pkce')
        confs = {}
        for name in ('a', 'b'):
            iss = 'https://' + name
            conf = static(S, name, iss)
            conf['client_id'] = 'client-' + name
            conf['client_secret'] = 'secret-' + name
            conf['behaviour']['response_types'] = [self.types[iss]]
            conf['request_args'] = {}
            conf['provider_info']['end_session_endpoint'] = iss + '/logout'
            conf['provider_info']['backchannel_logout_session_supported'] = True
            if self.pkce:
                conf['add_ons'] = copy.deepcopy(PKCE)
            confs[iss] = conf
        self.rph = handler(S, confs, self)
        S.patch(oidcmsg.oidc, 'left_hash', hash_of)
        tokens.install(S, self.toks)
        for iss in confs:
            self.rph.client_setup(iss).client_get('service_context').keyjar.add(iss, 'key')

    def check(self, props, cond, label):
        if self.aspect in props:
            self.S.check(cond, label)

    def __call__(self, url, method='GET', data='', headers=None, **kwargs):
        """the providers"""
        self.sent.append((url, method, data or '', headers or {}))
        if url.endswith('/userinfo'):
            key = self.owner.get((headers or {}).get('Authorization', '')[len('Bearer '):])
            if key is None:
                return Response(401, {'content-type': 'text/plain'}, 'no')
            s = self.sessions[key]
            return Response(200, {'content-type': 'application/json'},
                            json.dumps({'sub': s['sub'], 'nickname': 'nick of ' + key}))
        status, body = self.answer
        return Response(status, {'content-type': 'application/json'}, json.dumps(body))

    def unique(self, what):
        self.n += 1
        return '%s-%d' % (what, self.n)

    def id_token(self, s, key, nonce, front=None):
        now = self.S.now()
        name = self.unique('jwt')
        claims = {'iss': s['iss'], 'sub': s['sub'], 'sid': s['sid'], 'aud': ['client-' + s['iss'][-1]],
                  'iat': now, 'exp': now + s['lasts'], 'tag': name}
        if nonce:
            claims['nonce'] = nonce
        if front and 'access_token' in front:
            claims['at_hash'] = hash_of(front['access_token'])
        if front and 'code' in front:
            claims['c_hash'] = hash_of(front['code'])
        self.toks.append({'jwt': name, 'alg': 'RS256', 'good': True, 'claims': claims})
        return name

    def fresh_token(self, i, key, where):
        """an access token and how long it lasts"""
        S = self.S
        at = self.unique('at')
        self.owner[at] = key
        lasts = S.choice('lasts_%s%d' % (where, i), None, 50, 600)
        res = {'access_token': at, 'token_type': 'Bearer'}
        if lasts:
            res['expires_in'] = lasts
        return res, {'at': at, 'until': S.now() + lasts if lasts else None}

    def snapshot(self, without=None):
        """what can be read of every session but one"""
        S = self.S
        out = {}
        for key in self.sessions:
            if key != without:
                got = S.call(self.rph.get_session_information, key)
                out[key] = got.value.to_dict() if got.ok else None
        return out


def begin(w, i):
    S = w.S
    iss = S.choice('iss%d' % i, 'https://a', 'https://b')
    before = w.snapshot()
    asked = {}
    if S.flag('scope%d' % i):
        asked['scope'] = ['openid', 'email']
    if S.flag('prompt%d' % i):
        asked['prompt'] = 'login'
    out = S.call(w.rph.begin, iss, req_args=dict(asked)) if asked else S.call(w.rph.begin, iss)
    w.check(('C26', 'C30', 'C31'), out.ok, 'a login begins')
    if not out.ok:
        raise Stop()
    key = out.value['state']
    w.check(('C26', 'C30'), key not in w.sessions and w.snapshot() == before, 'no other session is touched')
    q = {k: v[0] for k, v in parse_qs(urlsplit(out.value['url']).query).items()}
    n = iss[-1]
    w.check(('C26',), out.value['url'].startswith(iss + '/authz?') and q.get('client_id') == 'client-' + n and
            q.get('redirect_uri') == 'https://rp.example.org/cb/' + n and q.get('state') == key and
            q.get('response_type') == w.types[iss], 'the request is that of the client of this provider')
    w.check(('C13',), q.get('scope') == ' '.join(asked.get('scope', ['openid', n])) and
            q.get('prompt') == asked.get('prompt') and q.get('client_id') == 'client-' + n and q.get('state') == key and
            'nonce' in q and q.get('response_type') == w.types[iss],
            'the request says what is configured, except where this call asks for something else')
    w.check(('C13',), S.call(w.rph.get_session_information, key).ok, 'there is a session')
    w.check(('C11',), (q.get('code_challenge_method') == 'S256' and 'code_challenge' in q and 'code_verifier' not in q)
            if w.pkce else 'code_challenge' not in q, 'there is a challenge if that is configured')
    w.check(('C11',), not w.pkce or q.get('code_challenge') not in [s['challenge'] for s in w.sessions.values()],
            'every login has a challenge of its own')
    w.check(('C05',), q.get('nonce') not in [s['nonce'] for s in w.sessions.values()], 'the nonce is new')
    w.sessions[key] = {'iss': iss, 'nonce': q.get('nonce'), 'done': False, 'tokens': {}, 'idt': None, 'rt': None,
                       'code': None, 'challenge': q.get('code_challenge')}


def authorization_response(w, i, key, nonce):
    """what the provider sends with the user, and what it will answer at the token endpoint"""
    S = w.S
    s = w.sessions[key]
    parts = w.types[s['iss']].split(' ')
    s['sub'] = S.choice('sub%d' % i, *SUBJECTS)
    s['sid'] = S.choice('sid%d' % i, *SIDS)
    s['lasts'] = S.choice('idt_lasts%d' % i, 50, 600)
    front = {'state': key}
    got = {}
    if 'code' in parts:
        front['code'] = w.unique('code')
    if 'token' in parts:
        more, got['front'] = w.fresh_token(i, key, 'front')
        front.update(more)
    if 'id_token' in parts:
        front['id_token'] = w.id_token(s, key, nonce, front)
        got['front idt'] = (front['id_token'], S.now() + s['lasts'])
    asks = 'code' in parts and 'token' not in parts
    if asks:
        back, got['back'] = w.fresh_token(i, key, 'back')
        if 'id_token' not in parts or S.flag('two ID tokens%d' % i):
            back['id_token'] = w.id_token(s, key, nonce)
            got['back idt'] = (back['id_token'], S.now() + s['lasts'])
        if S.flag('refresh token%d' % i):
            back['refresh_token'] = w.unique('rt')
        back['state'] = key
        w.answer = (200, back)
        got['rt'] = back.get('refresh_token')
    return front, got, asks


def finalize(w, i, key):
    S = w.S
    s = w.sessions[key]
    how = S.choice('how%d' % i, 'right', 'right', 'right', 'other provider', 'foreign nonce', 'error',
                   'token endpoint fails')
    nonce = s['nonce']
    if how == 'foreign nonce':
        others = [x['nonce'] for k, x in w.sessions.items() if k != key]
        nonce = others[0] if others else 'made up'
    front, got, asks = authorization_response(w, i, key, nonce)
    iss = s['iss']
    if how == 'other provider':
        iss = 'https://b' if iss == 'https://a' else 'https://a'
    elif how == 'error':
        front = {'state': key, 'error': 'access_denied'}
    elif how == 'token endpoint fails':
        w.answer = (400, {'error': 'invalid_grant'})
        if not asks:
            return
    others, before, sent = w.snapshot(key), w.snapshot(), len(w.sent)
    out = S.call(w.rph.finalize, iss, dict(front))
    w.check(('C04', 'C26', 'C30'), w.snapshot(key) == others, 'no other session is touched')
    new = w.sent[sent:]
    w.check(('C04', 'C26'), all(u.startswith(s['iss'] + '/') for u, m, d, h in new),
            'requests go to the provider of the session')
    if how in ('other provider', 'error'):
        w.check(('C04',), not out.ok or 'error' in out.value, 'it is refused, or reported as an error')
        w.check(('C04',), w.snapshot() == before and not new, 'nothing is stored and nothing is sent')
        return
    if how != 'right':
        w.check(('C05', 'C31'), not out.ok or 'error' in out.value, 'no login is reported')
        # what has been stored of it is out of use
        S.call(w.rph.clear_session, key)
        forget(w, key)
        return
    w.check(('C04', 'C05', 'C26', 'C30', 'C31'), out.ok and 'error' not in out.value, 'a login that is all right is reported')
    if not out.ok or 'error' in out.value:
        raise Stop()
    if asks and not new:
        w.check(('C31',), False, 'the code is exchanged')
        raise Stop()
    if asks:
        form = {k: v[0] for k, v in parse_qs(new[0][2]).items()}
        w.check(('C31', 'C04', 'C26'), new[0][0] == s['iss'] + '/token' and form.get('code') == front['code'],
                'the code is exchanged where it was given')
        n = s['iss'][-1]
        w.check(('C26',), new[0][3].get('Authorization') == 'Basic ' + base64.b64encode(
            ('client-%s:secret-%s' % (n, n)).encode()).decode(), 'with the credentials for that provider')
        if w.pkce:
            verifier = form.get('code_verifier', '')
            w.check(('C11',), s['challenge'] == base64.urlsafe_b64encode(
                hashlib.sha256(verifier.encode()).digest()).decode().rstrip('='),
                'the verifier is the one the challenge of this session was made from')
        else:
            w.check(('C11',), 'code_verifier' not in form, 'there is no verifier without a challenge')
    use = got['back'] if asks else got.get('front')
    idt = got.get('back idt') if asks else got.get('front idt')
    w.check(('C31',), out.value['state'] == key and out.value['token'] == use['at'], 'the token is that of this login')
    if idt:
        w.check(('C31', 'C05'), out.value['id_token']['tag'] == idt[0], 'the ID token is that of this login')
    w.check(('C31',), out.value['userinfo']['sub'] == s['sub'] and out.value['userinfo']['nickname'] == 'nick of ' + key,
            'the user info is that of this login')
    s['done'] = True
    s['tokens'] = {'auth_response': got.get('front'), 'token_response': got.get('back'), 'refresh_token_response': None}
    s['idt'] = got.get('back idt') or got.get('front idt')
    s['rt'] = got.get('rt')
    w.bound[(s['iss'], 'sub', s['sub'])] = key
    if idt:
        w.bound[(s['iss'], 'sid', s['sid'])] = key
    got = S.call(w.rph.issuer2rp[s['iss']].client_get('service_context').state.get_state_by_nonce, s['nonce'])
    w.check(('C05', 'C26'), got.ok and got.value == key, 'the nonce leads to the session')


def forget(w, key):
    del w.sessions[key]
    for what in [x for x in w.bound if w.bound[x] == key]:
        del w.bound[what]


def latest(s):
    for typ in ('refresh_token_response', 'token_response', 'auth_response'):
        if s['tokens'].get(typ):
            return s['tokens'][typ]
    return None


def refresh(w, i, key):
    S = w.S
    s = w.sessions[key]
    if not s['rt']:
        return
    how = S.choice('how%d' % i, 'right', 'right', 'rotated', 'fails')
    new, use = w.fresh_token(i, key, 'refreshed')
    if how == 'rotated':
        new['refresh_token'] = w.unique('rt')
    idt = None
    if S.flag('with ID token%d' % i):
        s['lasts'] = S.choice('idt_lasts%d' % i, 50, 600)
        new['id_token'] = w.id_token(s, key, None)
        idt = (new['id_token'], S.now() + s['lasts'])
    w.answer = (400, {'error': 'invalid_grant'}) if how == 'fails' else (200, new)
    others, before, sent = w.snapshot(key), w.snapshot(), len(w.sent)
    out = S.call(w.rph.refresh_access_token, key)
    w.check(('C26', 'C30'), w.snapshot(key) == others, 'no other session is touched')
    if len(w.sent) != sent + 1:
        w.check(('C29',), False, 'one request is made')
        raise Stop()
    url, method, data, headers = w.sent[sent]
    w.check(('C26', 'C29'), url == s['iss'] + '/token', 'the refresh goes to the provider of the session')
    form = {k: v[0] for k, v in parse_qs(data).items()}
    w.check(('C29',), s['rt'] in (form.get('refresh_token'), headers.get('Authorization', '')[len('Bearer '):]),
            'the refresh token is the one received last')
    if how == 'fails':
        w.check(('C29',), not out.ok or is_error_message(out.value), 'a failure is reported')
        w.check(('C29',), w.snapshot() == before, 'a refresh that fails changes nothing')
        return
    w.check(('C29',), out.ok and out.value['access_token'] == use['at'], 'the new token is reported')
    if not out.ok:
        raise Stop()
    s['tokens']['refresh_token_response'] = use
    if how == 'rotated':
        s['rt'] = new['refresh_token']
    if idt:
        s['idt'] = idt


def user_info(w, i, key):
    S = w.S
    s = w.sessions[key]
    now = S.now()
    if any(t and t['until'] is not None and t['until'] <= now for t in s['tokens'].values()):
        return
    others, sent = w.snapshot(key), len(w.sent)
    out = S.call(w.rph.get_user_info, key)
    w.check(('C26', 'C30'), w.snapshot(key) == others, 'no other session is touched')
    w.check(('C10',), len(w.sent) == sent + 1 and w.sent[sent][3].get('Authorization') == 'Bearer ' + latest(s)['at'],
            'the token sent is the one the session received last')
    if len(w.sent) != sent + 1:
        raise Stop()
    w.check(('C10', 'C26'), w.sent[sent][0] == s['iss'] + '/userinfo', 'it goes to the provider of the session')
    w.check(('C10', 'C26', 'C30'), out.ok and out.value['nickname'] == 'nick of ' + key, 'the answer is reported')


def look(w, i, key):
    S = w.S
    s = w.sessions[key]
    now = S.now()
    out = S.call(w.rph.get_valid_access_token, key)
    toks = [s['tokens'].get(t) for t in ('refresh_token_response', 'token_response', 'auth_response')]
    toks = [t for t in toks if t]
    endless = [t for t in toks if t['until'] is None]
    good = [t for t in toks if t['until'] is not None and t['until'] > now]
    if endless:
        w.check(('C12',), out.ok and out.value[0] == endless[0]['at'], 'a token without an end: the one received last')
    elif good:
        most = max(t['until'] for t in good)
        w.check(('C12',), out.ok and out.value[1] == most and
                out.value[0] in [t['at'] for t in good if t['until'] == most], 'the token that lasts longest')
    else:
        w.check(('C12',), not out.ok, 'no token is valid any more')
    active = S.call(w.rph.has_active_authentication, key)
    w.check(('C12',), active.ok and bool(active.value) == (s['idt'] is not None and s['idt'][1] > now),
            'logged in as long as the ID token received last is valid')


def log_out(w, i, key):
    S = w.S
    s = w.sessions[key]
    others = w.snapshot()
    out = S.call(w.rph.logout, key)
    w.check(('C20',), out.ok and out.value['url'].startswith(s['iss'] + '/logout?'), 'it goes to the provider of the session')
    if not out.ok:
        raise Stop()
    q = {k: v[0] for k, v in parse_qs(urlsplit(out.value['url']).query).items()}
    if s['idt']:
        w.check(('C20',), q.get('id_token_hint') == s['idt'][0], 'the hint is the ID token received last')
    else:
        w.check(('C20',), 'id_token_hint' not in q, 'there is no hint without an ID token')
    state = w.rph.issuer2rp[s['iss']].client_get('service_context').state
    back = S.call(state.get_state_by_logout_state, q.get('state'))
    w.check(('C20',), back.ok and back.value == key, 'the logout state leads to the session')
    w.check(('C20', 'C30'), w.snapshot() == others, 'no session is touched')


def told_to_log_out(w, i):
    S = w.S
    iss = S.choice('iss%d' % i, 'https://a', 'https://b')
    claims = {'iss': iss, 'iat': S.now(), 'jti': w.unique('j'), 'aud': ['client-' + iss[-1]], 'events': EVENT}
    what = S.choice('what%d' % i, 'sub', 'sid')
    claims[what] = S.choice(what + '%d' % i, *(SUBJECTS if what == 'sub' else SIDS))
    name = w.unique('out')
    w.toks.append({'jwt': name, 'alg': 'RS256', 'good': True, 'claims': claims})
    out = S.call(backchannel_logout, w.rph.issuer2rp[iss], request_args={'logout_token': name})
    want = w.bound.get((iss, what, claims[what]))
    if want is None:
        w.check(('C20',), not out.ok, 'no session is named where there is none')
    else:
        w.check(('C20',), out.ok and out.value == want, 'the session the provider means')


def clear(w, i, key):
    S = w.S
    others = w.snapshot(key)
    out = S.call(w.rph.clear_session, key)
    w.check(('C20', 'C30'), out.ok and w.snapshot(key) == others, 'no other session is touched')
    forget(w, key)
    gone = S.call(w.rph.get_session_information, key)
    w.check(('C20',), not gone.ok, 'the session is gone')


def steps(S, w):
    often = S.flag('looked at often')
    for i in range(14):
        if often:
            for k in w.sessions:
                if w.sessions[k]['done']:
                    look(w, i, k)
        op = S.choice('op%d' % i, 'begin', 'finalize', 'finalize', 'refresh', 'refresh', 'user info', 'look', 'logout',
                      'told', 'clear', 'later')
        if op == 'later':
            S.later(S.choice('seconds%d' % i, 1, 40, 50, 100))
            continue
        if op == 'told':
            told_to_log_out(w, i)
            continue
        done = [k for k in w.sessions if w.sessions[k]['done']]
        begun = [k for k in w.sessions if not w.sessions[k]['done']]
        pick = S.int('which%d' % i, 0, 5)
        if op == 'finalize' and begun:
            finalize(w, i, begun[pick % len(begun)])
        elif op in ('begin', 'finalize') or not done:
            if len(w.sessions) < 5:
                begin(w, i)
        else:
            key = done[pick % len(done)]
            {'refresh': refresh, 'user info': user_info, 'look': look, 'logout': log_out, 'clear': clear}[op](w, i, key)


def history(S, aspect):
    try:
        steps(S, World(S, aspect))
    except Stop:
        pass
    S.cover('done')


@contract('C04', targets=LOGIN, kind='concrete', bounded=BOUND)
def mixed_up(S):
    """any history of logins: responses at the wrong provider"""
    history(S, 'C04')


@contract('C05', targets=LOGIN, kind='concrete', bounded=BOUND)
def nonces(S):
    """any history of logins: nonces"""
    history(S, 'C05')


@contract('C10', targets=LOGIN, kind='concrete', bounded=BOUND)
def tokens_sent(S):
    """any history of logins: the token that is sent"""
    history(S, 'C10')


@contract('C11', targets=LOGIN, kind='concrete', bounded=BOUND)
def verifiers(S):
    """any history of logins: PKCE"""
    history(S, 'C11')


@contract('C13', targets=LOGIN, kind='concrete', bounded=BOUND)
def requests(S):
    """any history of logins: what the requests say"""
    history(S, 'C13')


@contract('C12', targets=LOGIN, kind='concrete', bounded=BOUND)
def lifetimes(S):
    """any history of logins: lifetimes"""
    history(S, 'C12')


@contract('C20', targets=LOGIN, kind='concrete', bounded=BOUND)
def logouts(S):
    """any history of logins: logging out"""
    history(S, 'C20')


@contract('C26', targets=LOGIN, kind='concrete', bounded=BOUND)
def two_providers(S):
    """any history of logins: two providers"""
    history(S, 'C26')


@contract('C29', targets=LOGIN, kind='concrete', bounded=BOUND)
def refreshes(S):
    """any history of logins: refreshing"""
    history(S, 'C29')


@contract('C30', targets=LOGIN, kind='concrete', bounded=BOUND)
def sessions_apart(S):
    """any history of logins: other sessions"""
    history(S, 'C30')


@contract('C31', targets=LOGIN, kind='concrete', bounded=BOUND)
def reported(S):
    """any history of logins: what is reported"""
    history(S, 'C31')
