"""C20 logging out: started here, and requested by the provider."""
from urllib.parse import parse_qs
from urllib.parse import urlsplit

from dv.api import contract

from contracts.common import free_key, make_client, make_context, make_handler, make_service
from contracts.tokens import FakeKeyJar, install

from oidcmsg.message import Message
from oidcmsg.oauth2 import AccessTokenResponse
from oidcmsg.oidc import IdToken
from oidcrp.exception import OidcServiceError
from oidcrp.oidc.access_token import AccessToken
from oidcrp.oidc.end_session import EndSession
from oidcrp.rp_handler import RPHandler
from oidcrp.rp_handler import backchannel_logout

RH = 'oidcrp.rp_handler.RPHandler.'
ES = 'oidcrp.oidc.end_session.EndSession.'
SI = 'oidcrp.state_interface.StateInterface.'
EVENT = 'http://schemas.openid.net/event/backchannel-logout'
JSON = '{"iss": "iss", "sub": "sub", "aud": "c", "iat": 1, "jti": "x", "events": {"%s": {}}}' % EVENT
ITEMS = ('auth_response', 'token_response', 'refresh_token_response')


def two_clients(S, services=True):
    """two providers, the first one with two sessions"""
    iss, iss2 = S.str('iss'), S.str('iss2')
    S.assume(iss != iss2)
    ctx = make_context(S, issuer=iss, client_id=S.str('client_id'),
                       provider_info={'end_session_endpoint': 'https://op/end', 'issuer': iss})
    ctx2 = make_context(S, issuer=iss2, client_id='client 2',
                        provider_info={'end_session_endpoint': 'https://op2/end', 'issuer': iss2})
    a, b = make_client(S, ctx), make_client(S, ctx2)
    if services:
        make_service(S, EndSession, client=a)
        make_service(S, EndSession, client=b)
    key, other, key2 = 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa', 'bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb', 'cccccccccccccccccccccccccccccc'
    ctx.state.create_state(iss, key)
    ctx.state.create_state(iss, other)
    ctx2.state.create_state(iss2, key2)
    rph = make_handler(S, issuer2rp={iss2: b, iss: a})
    return rph, ctx, ctx2, iss, iss2, key, other, key2


@contract('C20', targets=[RH + 'logout', RH + 'close', ES + 'get_id_token_hint', ES + 'add_post_logout_redirect_uri',
                          ES + 'add_state', SI + 'store_logout_state2state', SI + 'get_state_by_logout_state',
                          SI + 'multiple_extend_request_args'])
def logout_request(S):
    """the request that starts a logout"""
    rph, ctx, ctx2, iss, iss2, key, other, key2 = two_clients(S)
    hint = None
    for typ in ITEMS:
        if S.flag(typ):
            it = S.record(typ, {'access_token': 'at'}, {'id_token': S.str(typ + '_id_token')})
            if 'id_token' in it:
                # as the verification leaves it
                it['__verified_id_token'] = {'sub': 'subject', 'iss': iss}
            ctx.state.store_item(Message(**it), typ, key)
            if 'id_token' in it:
                hint = it['id_token']
    ctx.state.store_item(Message(access_token='x', id_token='foreign'), 'refresh_token_response', other)
    ctx2.state.store_item(Message(access_token='x', id_token='foreign2'), 'refresh_token_response', key2)
    uri = None
    where = S.choice('post logout', 'none', 'config', 'config list', 'callback', 'both')
    if where in ('callback', 'both'):
        uri = S.str('cb')
        ctx.callback = {'post_logout_redirect_uris': [uri]}
    if where == 'config':
        uri = S.str('uri')
        ctx.register_args = {'post_logout_redirect_uris': uri}
    elif where in ('config list', 'both'):
        uri = S.str('uri')
        ctx.register_args = {'post_logout_redirect_uris': [uri, 'https://rp/second']}
    kw = {}
    if S.flag('explicit URI'):
        uri = S.str('explicit')
        kw['post_logout_redirect_uri'] = uri
    how = S.choice('how', 'logout', 'close', 'close issuer')
    before, before2 = S.snapshot(ctx.state._db), S.snapshot(ctx2.state._db)
    if how == 'logout':
        out = S.call(rph.logout, key, **kw)
    elif how == 'close':
        out = S.call(rph.close, key, **kw)
    else:
        out = S.call(rph.close, key, iss, **kw)
    S.check(out.ok, 'a logout request is made')
    url = out.value['url']
    S.check(out.value['method'] == 'GET' and url.startswith('https://op/end?'),
            'it goes to the end-session endpoint of the provider of the session')
    q = parse_qs(urlsplit(url).query)
    if hint is None:
        S.check('id_token_hint' not in q, 'no ID token of another session is shown')
        S.cover('no hint')
    else:
        S.check('id_token_hint' in q and q['id_token_hint'] == [hint], 'the hint is the latest ID token of the session')
        S.cover('hint')
    if uri is None:
        S.check('post_logout_redirect_uri' not in q, 'no URI that was not configured')
    else:
        S.check('post_logout_redirect_uri' in q and q['post_logout_redirect_uri'] == [uri],
                'the URI after logout is the one asked for or registered')
    S.check('state' in q and len(q['state']) == 1, 'there is one state')
    st = q['state'][0]
    S.check(S.is_random(st) and st != key, 'the logout state is new and random')
    S.check(len(q) == 1 + (hint is not None) + (uri is not None), 'and nothing else')
    S.check(ctx.state.get_state_by_logout_state(st) == key, 'the logout state leads back to the session')
    S.check(S.unchanged_except(before, ctx.state._db, ['::' + st + '::', 'ref' + key + 'ref']), 'no session is touched')
    S.check(S.unchanged_except(before2, ctx2.state._db, []), 'the sessions with other providers are not touched')


@contract('C20', targets=[RH + 'logout', ES + 'add_state'])
def logout_twice(S):
    """two sessions log out, the first one again: each state leads to its session; own states are kept"""
    rph, ctx, ctx2, iss, iss2, key, other, key2 = two_clients(S)
    states = []
    for k in (key, other, key):
        out = S.call(rph.logout, k)
        S.check(out.ok, 'a logout request is made')
        states.append(parse_qs(urlsplit(out.value['url']).query)['state'][0])
    S.check(states[0] != states[1] and states[1] != states[2] and states[0] != states[2], 'all states differ')
    S.check(ctx.state.get_state_by_logout_state(states[0]) == key and
            ctx.state.get_state_by_logout_state(states[1]) == other and
            ctx.state.get_state_by_logout_state(states[2]) == key, 'each leads back to its session')
    own = S.str('own')
    S.assume(own not in states)
    srv = rph.issuer2rp[iss].client_get('service', 'end_session')
    out = S.call(srv.construct, {'state': own}, state=other)
    S.check(out.ok and out.value['state'] == own, 'a given state is used')
    S.check(ctx.state.get_state_by_logout_state(own) == other, 'and leads back to the session')
    S.cover('done')


@contract('C20', targets=[RH + 'logout'])
def logout_impossible(S):
    """without service, without session, without endpoint: an error, no request"""
    why = S.choice('why', 'service', 'session', 'endpoint')
    rph, ctx, ctx2, iss, iss2, key, other, key2 = two_clients(S, services=why != 'service')
    if why == 'endpoint':
        ctx.provider_info = {'issuer': iss}
    elif why == 'session':
        key = S.str('unknown')
        S.assume(key not in ('aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa', other, key2))
    out = S.call(rph.logout, key)
    S.check(not out.ok, 'no request is made')
    if why == 'service':
        S.check(out.exc is OidcServiceError, 'it is said that logout is not known')
    S.cover(why)


@contract('C20', targets=[RH + 'clear_session', SI + 'remove_state'])
def clear(S):
    """clearing a session after logout"""
    rph, ctx, ctx2, iss, iss2, key, other, key2 = two_clients(S)
    sid, sub = S.str('sid'), S.str('sub')
    mapped = []
    if S.flag('sid'):
        ctx.state.store_sid2state(sid, key)
    if S.flag('sub'):
        ctx.state.store_sub2state(sub, key)
    own = S.str('logout state')
    if S.flag('logged out'):
        S.call(rph.issuer2rp[iss].client_get('service', 'end_session').construct, {'state': own}, state=key)
    osid = S.str('osid')
    osub = S.str('osub')
    S.assume(osid != sid)
    S.assume(osub != sub)
    ctx.state.store_sid2state(osid, other)
    ctx.state.store_sub2state(osub, other)
    ctx2.state.store_sid2state(sid, key2)
    ctx2.state.store_sub2state(sub, key2)
    stored = S.call(ctx.state.get_state, other).value
    before2 = S.snapshot(ctx2.state._db)
    out = S.call(rph.clear_session, key)
    S.check(out.ok, 'the session is cleared')
    S.check(not S.call(ctx.state.get_state, key).ok, 'it is gone')
    for fn, x in ((ctx.state.get_state_by_sid, sid), (ctx.state.get_state_by_sub, sub),
                  (ctx.state.get_state_by_logout_state, own)):
        S.check(not S.call(fn, x).ok, 'nothing leads to it any more')
    S.check(S.call(ctx.state.get_state, other).value == stored, 'the other session stays')
    S.check(S.call(ctx.state.get_state_by_sid, osid).value == other and
            S.call(ctx.state.get_state_by_sub, osub).value == other, 'what leads to the other session stays')
    S.check(S.unchanged_except(before2, ctx2.state._db, []), 'the sessions with other providers stay')
    S.cover('done')


@contract('C20', targets=['oidcrp.rp_handler.backchannel_logout'])
def backchannel_token(S):
    """any logout token: when it is acted upon"""
    rph, ctx, ctx2, iss, iss2, key, other, key2 = two_clients(S, services=False)
    client_id = ctx.client_id
    ctx.keyjar = FakeKeyJar([iss, iss2])
    registered = S.choice('registered', None, 'ES256', 'none')
    if registered:
        ctx.registration_response = {'id_token_signed_response_alg': registered}
    expected = 'RS256' if registered in (None, 'none') else registered
    ctx.state.store_sub2state('sub', key)
    claims = S.record('claims', {'iss': S.str('tok_iss'), 'iat': S.int('iat', 1, 4000000000), 'jti': 'id',
                                 'aud': [S.str('aud')], 'sub': 'sub'}, {'nonce': S.str('nonce')})
    if S.flag('two audiences'):
        claims['aud'].append(S.str('aud2'))
    events = S.choice('events', 'right', 'other', 'two', 'value', 'none')
    if events in ('right', 'two'):
        claims['events'] = {EVENT: {}}
    if events == 'two':
        claims['events']['more'] = {}
    if events == 'other':
        claims['events'] = {S.str('event'): {}}
    if events == 'value':
        claims['events'] = {EVENT: {'a': 1}}
    tok = {'jwt': 'the.logout.token', 'alg': S.choice('alg', 'RS256', 'ES256', 'none'), 'claims': claims,
           'good': S.flag('signature verifies'), 'verified_with': None}
    install(S, [tok])
    now = S.now()
    S.assume(now > 1000)
    before = S.snapshot(ctx.state._db)
    out = S.call(backchannel_logout, rph.issuer2rp[iss], '', {'logout_token': tok['jwt']})
    S.check(S.unchanged_except(before, ctx.state._db, []), 'nothing is changed')
    logout = events == 'right' or (events == 'other' and EVENT in claims['events'])
    if out.ok:
        S.check(claims['iss'] == iss and tok['good'] and tok['verified_with'] == [iss],
                'acted upon: signed by the provider of this client')
        S.check(tok['alg'] == expected, 'acted upon: signed, with the algorithm expected')
        S.check(client_id in claims['aud'], 'acted upon: addressed to this client')
        S.check(claims['iat'] <= now, 'acted upon: not from the future')
        S.check('nonce' not in claims, 'acted upon: no nonce, it is not an ID token')
        S.check(logout, 'acted upon: the event is logout and nothing else')
        S.check(out.value == key, 'acted upon: the session is the one the token names')
        S.cover('accepted')
    else:
        valid = claims['iss'] == iss and tok['good'] and tok['alg'] == expected and client_id in claims['aud'] and \
            claims['iat'] <= now and 'nonce' not in claims and logout
        S.check(not valid, 'a valid logout token about a known session is acted upon')
        S.cover('refused')


@contract('C20', targets=['oidcrp.rp_handler.backchannel_logout', SI + 'get_state_by_sid', SI + 'get_state_by_sub'])
def backchannel_names(S):
    """one subject with several sessions: which one a valid token names"""
    rph, ctx, ctx2, iss, iss2, key, other, key2 = two_clients(S, services=False)
    ctx.keyjar = FakeKeyJar([iss])
    sid, osid, sub = S.str('sid'), S.str('osid'), S.str('sub')
    S.assume(sid != osid)
    remembered = S.flag('session IDs are remembered')
    order = S.choice('order', 'this first', 'other first')
    for k, i in ((key, sid), (other, osid)) if order == 'this first' else ((other, osid), (key, sid)):
        if remembered:
            ctx.state.store_sid2state(i, k)
        ctx.state.store_sub2state(sub, k)
        last = k
    ctx2.state.store_sid2state(S.str('sid elsewhere'), key2)
    ctx2.state.store_sub2state(S.str('sub elsewhere'), key2)
    now = S.now()
    S.assume(now > 1000)
    claims = S.record('claims', {'iss': iss, 'iat': now - 5, 'jti': 'id', 'aud': [ctx.client_id], 'events': {EVENT: {}}},
                      {'sub': S.str('tok_sub'), 'sid': S.str('tok_sid')})
    install(S, [{'jwt': 'the.logout.token', 'alg': 'RS256', 'claims': claims, 'good': True, 'verified_with': None}])
    out = S.call(backchannel_logout, rph.issuer2rp[iss], '', {'logout_token': 'the.logout.token'})
    if 'sid' in claims and remembered and claims['sid'] == sid:
        S.check(out.ok and out.value == key, 'the session with that session ID')
        S.cover('session ID')
    elif 'sid' in claims and remembered and claims['sid'] == osid:
        S.check(out.ok and out.value == other, 'the session with that session ID')
    elif 'sub' in claims and claims['sub'] == sub:
        S.check(out.ok and out.value == last, 'the latest session of that subject')
        S.cover('subject')
    else:
        S.check(not out.ok, 'no session here: none is named')
        S.cover('none')


@contract('C20', targets=['oidcrp.rp_handler.backchannel_logout'])
def backchannel_empty(S):
    """no token, or one that is no token"""
    rph, ctx, ctx2, iss, iss2, key, other, key2 = two_clients(S, services=False)
    install(S, [])
    what = S.choice('what', 'nothing', 'other', 'garbage', 'smuggled')
    args = None
    if what == 'other':
        args = {'x': S.str('x')}
    elif what == 'garbage':
        args = {'logout_token': S.choice('token', '', 'x', 'a.b.c', '{}', JSON)}
    elif what == 'smuggled':
        args = {'logout_token': 'a.b.c', '__verified_logout_token': {'sub': 'sub'}}
    ctx.state.store_sub2state('sub', key)
    ctx.client_id = 'c'
    ctx.issuer = 'iss'
    out = S.call(backchannel_logout, rph.issuer2rp[iss], '', args)
    S.check(not out.ok, 'no session is named')
    S.cover('done')


@contract('C20', targets=['oidcrp.rp_handler.backchannel_logout'])
def backchannel_wire(S):
    """the request as it arrives on the wire"""
    rph, ctx, ctx2, iss, iss2, key, other, key2 = two_clients(S, services=False)
    ctx.keyjar = FakeKeyJar([iss, iss2])
    now = S.now()
    S.assume(now > 1000)
    claims = {'iss': iss, 'iat': now - 10, 'jti': 'id', 'aud': [ctx.client_id], 'sub': 'sub', 'events': {EVENT: {}}}
    install(S, [{'jwt': 'a.b.c', 'alg': 'RS256', 'claims': claims, 'good': True, 'verified_with': None}])
    ctx.state.store_sub2state('sub', key)
    text = 'logout_token=a.b.c'
    if S.flag('bytes'):
        text = text.encode()
    out = S.call(backchannel_logout, rph.issuer2rp[iss], text)
    S.check(out.ok and out.value == key, 'the request is understood')
    S.cover('done')


@contract('C20', targets=[RH + 'finalize', SI + 'store_sid2state', SI + 'store_sub2state'])
def login_is_remembered(S):
    """after a login the session is found by subject and session ID"""
    rph, ctx, ctx2, iss, iss2, key, other, key2 = two_clients(S, services=False)
    support = S.choice('support', 'none', 'backchannel', 'frontchannel', 'no')
    if support == 'backchannel':
        ctx.provider_info['backchannel_logout_session_supported'] = True
    elif support == 'frontchannel':
        ctx.provider_info['frontchannel_logout_session_supported'] = True
    elif support == 'no':
        ctx.provider_info['backchannel_logout_session_supported'] = False
    sub = S.str('sub')
    idt = None
    if S.flag('ID token'):
        idt = IdToken(**S.record('idt', {'iss': iss, 'sub': sub, 'aud': ['c']}, {'sid': S.str('sid')}))
    token = {'access_token': S.str('at'), 'id_token': idt}
    userinfo = S.choice('user info', 'no service', 'no sub', 'sub')
    resp = {'state': key, 'code': 'x'}
    if S.flag('known before'):
        # an earlier login of this subject
        ctx.state.store_sub2state(sub, other)
        if idt is not None and 'sid' in idt:
            ctx.state.store_sid2state(idt['sid'], other)
    if userinfo != 'no service':
        make_service(S, AccessToken, client=rph.issuer2rp[iss])
        rph.issuer2rp[iss]._service['userinfo'] = 'user info service'
    info = {'name': 'x'}
    if userinfo == 'sub':
        info['sub'] = sub
    asked = []

    def get_user_info(self, state, client=None, access_token='', **kw):
        asked.append((state, access_token))
        return info

    def finalize_auth(self, client, issuer, response, behaviour_args=None):
        return response

    def get_access_and_id_token(self, authorization_response=None, state='', client=None, behaviour_args=None):
        return token
    S.patch(RPHandler, 'finalize_auth', finalize_auth)
    S.patch(RPHandler, 'get_access_and_id_token', get_access_and_id_token)
    S.patch(RPHandler, 'get_user_info', get_user_info)
    before, before2 = S.snapshot(ctx.state._db), S.snapshot(ctx2.state._db)
    out = S.call(rph.finalize, iss, resp)
    S.check(out.ok and 'error' not in out.value and out.value['state'] == key, 'the login is reported')
    S.check(out.value['token'] == token['access_token'] and out.value['id_token'] is idt, 'with its token and ID token')
    if userinfo != 'no service':
        S.check(asked == [(key, token['access_token'])], 'user info is asked for with the token of this session')
        S.check(out.value['userinfo'] == info, 'with its user info')
    changed = ['ref' + key + 'ref']
    if idt is not None or userinfo == 'sub':
        S.check(S.call(ctx.state.get_state_by_sub, sub).value == key, 'the subject leads to the session')
        changed.append('==' + sub + '==')
        S.cover('subject')
    if idt is not None and 'sid' in idt and support in ('backchannel', 'frontchannel'):
        S.check(S.call(ctx.state.get_state_by_sid, idt['sid']).value == key, 'the session ID leads to the session')
        changed.append('..' + idt['sid'] + '..')
        S.cover('session ID')
    S.check(S.unchanged_except(before, ctx.state._db, changed), 'no other session is touched')
    S.check(S.unchanged_except(before2, ctx2.state._db, []), 'the sessions with other providers are not touched')
