"""C05 nonce binding, C06 what makes an ID token acceptable."""
from dv.api import contract

from contracts.common import make_context, free_key, make_service, session_key
from contracts.tokens import FakeKeyJar, install

from oidcmsg.message import Message
from oidcmsg.oidc import AuthorizationRequest
from oidcmsg.oidc import IdToken
from oidcrp.oidc.access_token import AccessToken
from oidcrp.oidc.authorization import Authorization
from oidcrp.oidc.refresh_access_token import RefreshAccessToken

AUTHZ = 'oidcrp.oidc.authorization.Authorization.'
AT = 'oidcrp.oidc.access_token.AccessToken.'
RAT = 'oidcrp.oidc.refresh_access_token.RefreshAccessToken.'
SRV = 'oidcrp.service.Service.'
VERIFIED = '__verified_id_token'


def id_token_world(S, iss, client_id):
    """one ID token with arbitrary content"""
    claims = S.record('claims', {'iss': S.str('tok_iss'), 'sub': S.str('sub'),
                                 'exp': S.int('exp', 0, 4000000000), 'iat': S.int('iat', 0, 4000000000)},
                      {'nonce': S.str('tok_nonce')})
    aud = S.str('aud1')
    if S.flag('two audiences'):
        claims['aud'] = [aud, S.str('aud2')]
        claims['azp'] = S.str('azp')
    else:
        claims['aud'] = [aud]
    tok = {'jwt': S.str('jwt'), 'alg': S.choice('alg', 'RS256', 'ES256', 'none'), 'claims': claims,
           'good': S.flag('signature verifies'), 'verified_with': None}
    install(S, [tok])
    return tok


def accepted_means(S, tok, iss, client_id, now, skew, registered_alg):
    c = tok['claims']
    S.check(c['iss'] == iss, 'accepted: issued by the issuer the client is set up for')
    S.check(client_id in c['aud'], 'accepted: the client is an audience')
    if len(c['aud']) > 1:
        S.check(c['azp'] == client_id, 'accepted: with several audiences the client is the authorized party')
    S.check(c['exp'] >= now - skew, 'accepted: not expired beyond the clock skew')
    S.check(c['iat'] <= now + skew, 'accepted: not issued in the future beyond the clock skew')
    if registered_alg:
        S.check(tok['alg'] == registered_alg, 'accepted: signed with the registered algorithm')
    if tok['alg'] == 'none':
        S.check(registered_alg == 'none', 'accepted unsigned: only if registered so')
    else:
        S.check(tok['good'] and tok['verified_with'] == [iss],
                "accepted: signature verified with the issuer's keys")


def context(S, keyed=True):
    iss = S.str('iss')
    client_id = S.str('client_id')
    ctx = make_context(S, issuer=iss, client_id=client_id)
    ctx.keyjar = FakeKeyJar([iss, S.str('other_iss')])
    ctx.clock_skew = S.int('skew', 0, 300)
    return ctx, iss, client_id


@contract('C06', targets=[SRV + 'parse_response', SRV + '_do_response', AUTHZ + 'gather_verify_arguments',
                          AUTHZ + 'post_parse_response'])
def authorization_response(S):
    """an authorization response with an ID token is accepted only if ..."""
    ctx, iss, client_id = context(S)
    alg = S.choice('registered', None, 'RS256', 'none')
    if alg:
        ctx.registration_response = {'id_token_signed_response_alg': alg}
    tok = id_token_world(S, iss, client_id)
    state = session_key(S, 'state')
    ctx.state.create_state(iss, state)
    ctx.state.store_item(Message(response_type='id_token', nonce=S.str('req_nonce')), 'auth_request', state)
    srv = make_service(S, Authorization, ctx)
    out = S.call(srv.parse_response, {'id_token': tok['jwt'], 'state': state}, 'dict')
    if out.ok and VERIFIED in out.value:
        accepted_means(S, tok, iss, client_id, S.now(), ctx.clock_skew, alg)
        S.check(out.value[VERIFIED]['sub'] == tok['claims']['sub'], 'the verified claims are those of the token')
        S.cover('accepted')
    else:
        S.check(not out.ok, 'a response whose ID token is not verified is not accepted')
        S.cover('refused')


@contract('C06', targets=[SRV + 'parse_response', AT + 'gather_verify_arguments', RAT + 'gather_verify_arguments'])
def token_response(S):
    ctx, iss, client_id = context(S)
    alg = S.choice('registered', None, 'RS256', 'none')
    if alg:
        ctx.registration_response = {'id_token_signed_response_alg': alg}
    tok = id_token_world(S, iss, client_id)
    srv = make_service(S, S.choice('service', AccessToken, RefreshAccessToken), ctx)
    out = S.call(srv.parse_response, {'id_token': tok['jwt'], 'access_token': S.str('at'),
                                      'token_type': 'Bearer'}, 'dict', S.str('state'))
    if out.ok and VERIFIED in out.value:
        accepted_means(S, tok, iss, client_id, S.now(), ctx.clock_skew, alg)
        S.check(out.value[VERIFIED]['sub'] == tok['claims']['sub'], 'the verified claims are those of the token')
        S.cover('accepted')
    else:
        S.check(not out.ok, 'a response whose ID token is not verified is not accepted')
        S.cover('refused')


@contract('C06', targets=[SRV + 'parse_response', AT + 'gather_verify_arguments', RAT + 'gather_verify_arguments'])
def any_number_of_audiences(S):
    """however many audiences a token has, the client is one of them"""
    ctx, iss, client_id = context(S)
    now = S.now()
    claims = S.record('claims', {'iss': iss, 'sub': S.str('sub'), 'exp': now + 10, 'iat': now - 10,
                                 'aud': S.texts('aud')}, {'azp': S.str('azp')})
    tok = {'jwt': S.str('jwt'), 'alg': 'RS256', 'claims': claims, 'good': True, 'verified_with': None}
    install(S, [tok])
    ctx.registration_response = {'id_token_signed_response_alg': 'RS256'}
    srv = make_service(S, S.choice('service', AccessToken, RefreshAccessToken), ctx)
    out = S.call(srv.parse_response, {'id_token': tok['jwt'], 'access_token': 'at',
                                      'token_type': 'Bearer'}, 'dict', S.str('state'))
    if out.ok and VERIFIED in out.value:
        S.check(client_id in tok['claims']['aud'], 'accepted: the client is an audience')
        if len(tok['claims']['aud']) > 1:
            S.check('azp' in tok['claims'], 'accepted: with several audiences the authorized party is named')
        if 'azp' in tok['claims']:
            S.check(tok['claims']['azp'] == client_id, 'accepted: the client is the authorized party')
        S.cover('accepted')
    else:
        S.check(not out.ok, 'a response whose ID token is not verified is not accepted')
        S.cover('refused')


@contract('C06', targets=[SRV + 'parse_response', AUTHZ + 'gather_verify_arguments'])
def addressed_to_other(S):
    """parameters of the response that say whom it is for and from whom it comes"""
    ctx, iss, client_id = context(S)
    install(S, [])
    state = session_key(S, 'state')
    ctx.state.create_state(iss, state)
    ctx.state.store_item(Message(response_type='code'), 'auth_request', state)
    srv = make_service(S, Authorization, ctx)
    resp = S.record('resp', {'code': S.str('code'), 'state': state},
                    {'iss': S.str('resp_iss'), 'client_id': S.str('resp_client_id'),
                     'aud': S.str('resp_aud')})
    if 'aud' in resp:
        resp['aud'] = [resp['aud']]
    out = S.call(srv.parse_response, resp, 'dict')
    if out.ok:
        S.check('iss' not in resp or resp['iss'] == iss, 'accepted: an issuer named in the response is the right one')
        S.check('client_id' not in resp or resp['client_id'] == client_id,
                'accepted: a client named in the response is this one')
        S.check('aud' not in resp or client_id in resp['aud'], 'accepted: this client is in the audience')
        S.check(out.value['code'] == resp['code'] and out.value['state'] == state,
                'accepted: the parameters are those received')
        S.cover('accepted')
    else:
        S.check(('iss' in resp and resp['iss'] != iss) or
                ('client_id' in resp and resp['client_id'] != client_id) or
                ('aud' in resp and client_id not in resp['aud']),
                'a response addressed properly is accepted')
        S.cover('refused')


@contract('C06', targets=[SRV + 'parse_response', AUTHZ + 'gather_verify_arguments'])
def smuggled_verified_claims(S):
    """claims that only verification may add do not survive when sent by the other side"""
    ctx, iss, client_id = context(S)
    install(S, [])
    which = S.choice('service', 'authorization', 'token')
    resp = {'state': 'xyz', 'code': S.str('code'), VERIFIED: {'sub': S.str('evil')}}
    if which == 'authorization':
        srv = make_service(S, Authorization, ctx)
    else:
        srv = make_service(S, AccessToken, ctx)
        resp['access_token'] = S.str('at')
        resp['token_type'] = 'Bearer'
    out = S.call(srv.parse_response, resp, 'dict')
    S.check(not out.ok or VERIFIED not in out.value, 'no unverified claim passes for a verified one')
    S.cover('done')


@contract('C06', targets=[SRV + 'parse_response', AUTHZ + 'gather_verify_arguments', AT + 'gather_verify_arguments'])
def good_token(S):
    """a token that is all right is accepted, up to the clock skew on either side"""
    ctx, iss, client_id = context(S)
    now = S.now()
    S.assume(1000 < now)
    alg = S.choice('registered', None, 'RS256', 'ES256', 'none')
    if alg:
        ctx.registration_response = {'id_token_signed_response_alg': alg}
    iat = now + ctx.clock_skew - S.int('age', 0, 900)
    exp = now - ctx.clock_skew + S.int('left', 1, 3000)
    S.assume(iat < exp)
    claims = {'iss': iss, 'sub': S.str('sub'), 'aud': [client_id], 'exp': exp, 'iat': iat, 'nonce': S.str('nonce')}
    if S.flag('two audiences'):
        claims['aud'] = [S.str('aud'), client_id]
        claims['azp'] = client_id
    tok = {'jwt': S.str('jwt'), 'alg': alg or 'RS256', 'claims': claims, 'good': True, 'verified_with': None}
    install(S, [tok])
    ctx.state.create_state(iss, 'key')
    ctx.state.store_item(Message(response_type='id_token', nonce=claims['nonce']), 'auth_request', 'key')
    ctx.state.store_nonce2state(claims['nonce'], 'key')
    cls = S.choice('service', Authorization, AccessToken, RefreshAccessToken)
    resp = {'id_token': tok['jwt'], 'state': 'key'}
    if cls is not Authorization:
        resp = {'id_token': tok['jwt'], 'access_token': S.str('at'), 'token_type': 'Bearer'}
    out = S.call(make_service(S, cls, ctx).parse_response, resp, 'dict', 'key')
    S.check(out.ok and VERIFIED in out.value, 'a token that is all right is accepted')
    S.check(out.value[VERIFIED]['sub'] == claims['sub'] and out.value[VERIFIED]['nonce'] == claims['nonce'],
            'the verified claims are those of the token')
    S.cover('accepted')


# ---------------------------------------------------------------- C05
@contract('C05', targets=[AUTHZ + 'post_parse_response', SRV + 'parse_response',
                          AUTHZ + 'get_request_from_response'])
def front_channel(S):
    """ID token in the authorization response"""
    ctx, iss, client_id = context(S)
    now = S.now()
    S.assume(now > 1000)
    claims = S.record('claims', {'iss': iss, 'sub': S.str('sub'), 'aud': [client_id],
                                 'exp': now + 10, 'iat': now - 10},
                      {'nonce': S.str('tok_nonce')})
    tok = {'jwt': S.str('jwt'), 'alg': 'RS256', 'claims': claims, 'good': True, 'verified_with': None}
    install(S, [tok])
    state = session_key(S, 'state')
    other = session_key(S, 'other')
    S.assume(state != other)
    ctx.state.create_state(iss, state)
    ctx.state.create_state(iss, other)
    req = S.record('req', {'response_type': 'id_token'}, {'nonce': S.str('req_nonce')})
    ctx.state.store_item(Message(**req), 'auth_request', state)
    ctx.state.store_item(Message(response_type='id_token', nonce=S.str('other_nonce')), 'auth_request', other)
    srv = make_service(S, Authorization, ctx)
    resp = {'id_token': tok['jwt'], 'state': state}
    out = S.call(srv.parse_response, resp, 'dict')
    if 'nonce' in req:
        if 'nonce' in claims and claims['nonce'] == req['nonce']:
            S.check(out.ok, 'an ID token with the nonce of the request is accepted')
            S.cover('accepted')
        else:
            S.check(not out.ok, 'an ID token without the nonce of the request is refused')
            S.cover('refused')
    else:
        S.check(out.ok, 'without a nonce in the request none is demanded')
        S.cover('no nonce asked')


@contract('C05', targets=[AUTHZ + 'post_parse_response', SRV + 'parse_response'])
def front_channel_no_session(S):
    """an ID token for a state nobody asked for"""
    ctx, iss, client_id = context(S)
    now = S.now()
    claims = {'iss': iss, 'sub': S.str('sub'), 'aud': [client_id], 'exp': now + 10, 'iat': now - 10,
              'nonce': S.str('tok_nonce')}
    tok = {'jwt': S.str('jwt'), 'alg': 'RS256', 'claims': claims, 'good': True, 'verified_with': None}
    install(S, [tok])
    srv = make_service(S, Authorization, ctx)
    ctx.state._db = S.open_dict('db')
    state = S.str('state')
    S.assume(state not in ctx.state._db)
    resp = {'id_token': tok['jwt'], 'state': state}
    out = S.call(srv.parse_response, resp, 'dict')
    S.check(not out.ok, 'an ID token cannot be accepted for an unknown session')
    S.cover('done')


@contract('C05', targets=[AT + 'update_service_context'])
def back_channel(S):
    """ID token in the token response"""
    ctx, iss, client_id = context(S)
    install(S, [])
    key = free_key(S, 'key')
    other = free_key(S, 'other')
    S.assume(key != other)
    si = ctx.state
    si.create_state(iss, key)
    si.create_state(iss, other)
    n1 = S.str('nonce1')
    n2 = S.str('nonce2')
    S.assume(n1 != n2)
    si.store_nonce2state(n1, key)
    si.store_nonce2state(n2, other)
    idt = IdToken(**S.record('idt', {'sub': S.str('sub'), 'iss': iss}, {'nonce': S.str('idt_nonce')}))
    if S.flag('session id'):
        idt['sid'] = S.str('sid')
    srv = make_service(S, AccessToken, ctx)
    resp = srv.response_cls(access_token=S.str('at'), token_type='Bearer')
    resp[VERIFIED] = idt
    before = S.snapshot(si._db)
    out = S.call(srv.update_service_context, resp, key)
    if 'nonce' in idt and idt['nonce'] == n1:
        S.check(out.ok, 'the nonce of this session is accepted')
        S.check(S.call(si.get_item, Message, 'token_response', key).ok, 'the token response is stored')
        S.check(S.call(si.get_state_by_sub, idt['sub']).value == key, 'the subject leads to this session')
        if 'sid' in idt:
            S.check(not S.call(si.get_state_by_sub, idt['sid']).ok or idt['sid'] == idt['sub'],
                    'a session identifier is not taken for a subject')
        S.cover('accepted')
    else:
        S.check(not out.ok, 'any other nonce, or none, is refused')
        S.check(S.unchanged_except(before, si._db), 'a refused token response leaves no trace')
        S.cover('refused')


def session_with_id_token(S, *items):
    """two sessions, each with its nonce; the first one has got ID tokens"""
    iss = 'https://op'
    ctx = make_context(S, issuer=iss, client_id='client')
    install(S, [])
    key, other = 'this-session', 'that-session'
    si = ctx.state
    si.create_state(iss, key)
    si.create_state(iss, other)
    n1, n2 = S.str('nonce1'), S.str('nonce2')
    S.assume(n1 != n2)
    si.store_nonce2state(n1, key)
    si.store_nonce2state(n2, other)
    subject = None
    for it in items:
        if S.flag(it):
            if subject is None:
                subject = S.str('subject')
            si.store_item(Message(access_token='earlier', refresh_token='rt',
                                  **{VERIFIED: {'sub': subject, 'iss': iss}}), it, key)
        elif S.flag('no ID token: ' + it):
            si.store_item(Message(access_token='earlier', refresh_token='rt'), it, key)
    if len(items) > 1:
        si.store_item(Message(access_token='foreign', **{VERIFIED: {'sub': S.str('foreign'), 'iss': iss}}),
                      items[0], other)
    return ctx, key, n1, subject


@contract('C05', targets=[RAT + 'update_service_context', 'oidcrp.oidc.access_token.verify_subject'])
def refreshed(S):
    """ID token in the response to a refresh: the subject stays, a nonce is that of the session"""
    ctx, key, n1, subject = session_with_id_token(S, 'auth_response', 'token_response', 'refresh_token_response')
    idt = IdToken(**S.record('idt', {'sub': S.str('sub'), 'iss': 'https://op'}, {'nonce': S.str('idt_nonce')}))
    srv = make_service(S, RefreshAccessToken, ctx)
    resp = srv.response_cls(access_token='new', token_type='Bearer')
    with_token = S.flag('with ID token')
    if with_token:
        resp[VERIFIED] = idt
    before = S.snapshot(ctx.state._db)
    out = S.call(srv.update_service_context, resp, key)
    fine = not with_token or (('nonce' not in idt or idt['nonce'] == n1) and
                              (subject is None or idt['sub'] == subject))
    if out.ok:
        S.check(fine, 'only an ID token about the same subject, with the nonce of the session if it has one')
        S.check(S.call(ctx.state.get_item, Message, 'refresh_token_response', key).value['access_token'] == 'new',
                'the response is stored')
        S.check(S.unchanged_except(before, ctx.state._db, [key]), 'no other session is touched')
        S.cover('accepted')
    else:
        S.check(not fine, 'a proper response is accepted')
        S.check(S.unchanged_except(before, ctx.state._db), 'a refused response leaves no trace')
        S.cover('refused')


@contract('C05', targets=[AT + 'update_service_context', 'oidcrp.oidc.access_token.verify_subject'])
def both_channels(S):
    """an ID token from the token endpoint is about the subject of the one that came with the authorization response"""
    ctx, key, n1, subject = session_with_id_token(S, 'auth_response')
    idt = IdToken(sub=S.str('sub'), iss='https://op', nonce=n1)
    srv = make_service(S, AccessToken, ctx)
    resp = srv.response_cls(access_token='new', token_type='Bearer')
    resp[VERIFIED] = idt
    before = S.snapshot(ctx.state._db)
    out = S.call(srv.update_service_context, resp, key)
    S.check(out.ok == (subject is None or idt['sub'] == subject), 'accepted exactly for the same subject')
    if not out.ok:
        S.check(S.unchanged_except(before, ctx.state._db), 'a refused token response leaves no trace')
    S.cover('accepted' if out.ok else 'refused')
