"""C14 user info."""
import json

from dv.api import contract

from contracts.common import make_client, make_context, make_service
from contracts.tokens import FakeKeyJar, install

from oidcmsg.oidc import AccessTokenResponse
from oidcmsg.oidc import OpenIDSchema
from oidcrp.oidc.userinfo import UserInfo

UI = 'oidcrp.oidc.userinfo.UserInfo.'
SRV = 'oidcrp.service.Service.'
VERIFIED = '__verified_id_token'
ITEMS = ('auth_response', 'token_response', 'refresh_token_response')


def world(S, key='this-session', other='that-session'):
    iss = 'https://op'
    ctx = make_context(S, issuer=iss, client_id='client')
    ctx.keyjar = FakeKeyJar([iss, 'https://claims'])
    srv = make_service(S, UserInfo, ctx)
    ctx.state.create_state(iss, key)
    ctx.state.create_state(iss, other)
    return ctx, srv, key, other


def login(S, ctx, key, item, sub):
    ctx.state.store_item(AccessTokenResponse(access_token='at', token_type='Bearer',
                                             **{VERIFIED: {'sub': sub, 'iss': ctx.issuer}}), item, key)


def stored_sub(ctx, key):
    try:
        return ctx.state.get_item(OpenIDSchema, 'user_info', key)['sub']
    except KeyError:
        return None


@contract('C14', targets=[UI + 'post_parse_response', UI + 'gather_verify_arguments', SRV + 'parse_response',
                          SRV + '_do_response', 'oidcrp.state_interface.StateInterface.multiple_extend_request_args'])
def subject(S):
    """accepted only for the subject of the ID token of this session"""
    install(S, [])
    ctx, srv, key, other = world(S)
    sub, foreign, got = S.str('sub'), S.str('foreign_sub'), S.str('received_sub')
    where = S.choice('ID token in', *ITEMS)
    login(S, ctx, key, where, sub)
    if S.flag('foreign login'):
        login(S, ctx, other, where, foreign)
    resp = S.record('info', {}, {'sub': got, 'email': S.str('email'), 'email_verified': S.bool('ev')})
    fmt = S.choice('format', 'dict', 'json')
    before = S.snapshot(ctx.state._db)
    out = S.call(srv.parse_response, resp if fmt == 'dict' else json.dumps(resp), fmt, key)
    if out.ok:
        S.check('sub' in resp and got == sub, 'accepted: about the subject of the ID token')
        S.check(out.value['sub'] == sub, 'accepted: the subject is reported')
        S.check(('email' in out.value) == ('email' in resp) and
                ('email' not in resp or out.value['email'] == resp['email']), 'accepted: the claims are those received')
        S.check(stored_sub(ctx, key) == sub, 'accepted: stored with the session')
        kept = ctx.state.get_item(OpenIDSchema, 'user_info', key)
        for claim in ('email', 'email_verified'):
            S.check((claim in kept) == (claim in resp) and (claim not in resp or kept[claim] == resp[claim]),
                    'accepted: every claim is kept as received')
        S.check(S.unchanged_except(before, ctx.state._db, [key]), 'accepted: no other session is touched')
        S.cover('accepted')
    else:
        S.check('sub' not in resp or got != sub, 'user info about the right subject is accepted')
        S.check(S.unchanged_except(before, ctx.state._db, []), 'refused: nothing is stored')
        S.cover('refused')


@contract('C14', targets=[UI + 'post_parse_response'])
def several_id_tokens(S):
    """after a refresh the ID token last received counts; all of them are about one subject"""
    install(S, [])
    ctx, srv, key, other = world(S)
    sub, got = S.str('sub'), S.str('received_sub')
    n = 0
    for it in ITEMS:
        if S.flag(it):
            login(S, ctx, key, it, sub)
            n += 1
    S.assume(n > 0)
    out = S.call(srv.parse_response, {'sub': got}, 'dict', key)
    S.check(out.ok == (got == sub), 'accepted exactly for the subject of the ID token')
    S.cover('accepted' if out.ok else 'refused')


@contract('C14', targets=[UI + 'post_parse_response'])
def aggregated(S):
    """claims of other sources: named, verified, and never the subject"""
    ctx, srv, key, other = world(S)
    sub = S.str('sub')
    login(S, ctx, key, 'token_response', sub)
    email, phone, evil = S.str('email'), S.str('phone'), S.str('evil_sub')
    own = S.str('own_phone')
    tok = {'jwt': 'the.signed.token', 'alg': S.choice('alg', 'RS256', 'HS256'), 'good': S.flag('signature verifies'),
           'verified_with': None,
           'claims': {'iss': S.choice('signer', 'https://claims', 'https://unknown', 'https://op'),
                      'email': email, 'phone_number': phone, 'sub': evil, 'name': S.str('name')}}
    install(S, [tok])
    names = S.record('names', {}, {'email': S.choice('email from', 'src1', 'src2'), 'sub': 'src1'})
    resp = {'sub': sub, 'phone_number': own, '_claim_names': names,
            '_claim_sources': {'src1': {'JWT': 'the.signed.token'}}}
    if S.flag('distributed too'):
        resp['_claim_sources']['src2'] = {'endpoint': 'https://claims/src2', 'access_token': 'xyz'}
    out = S.call(srv.parse_response, resp, 'dict', key)
    usable = tok['good'] and tok['claims']['iss'] != 'https://unknown'
    if out.ok:
        S.check(out.value['sub'] == sub, 'the subject is never replaced')
        S.check(out.value['phone_number'] == own and 'name' not in out.value,
                'claims the source is not named for are not taken from it')
        if 'email' in out.value:
            S.check(usable and 'email' in names and names['email'] == 'src1' and out.value['email'] == email,
                    'a claim is added only from the source that is named, after verification')
            S.check(tok['verified_with'] == [tok['claims']['iss']], 'verified with the keys of its issuer')
            S.cover('added')
        else:
            S.check(not usable or names.get('email') != 'src1', 'a verified claim is added')
            S.cover('not added')
        S.check(stored_sub(ctx, key) == sub, 'stored as accepted')
    else:
        S.check(not usable, 'working sources do no harm')
        S.check(stored_sub(ctx, key) is None, 'refused: nothing is stored')
        S.cover('refused')
    if tok['claims']['iss'] == 'https://unknown':
        S.check(out.ok, 'a source whose keys are not known leaves the rest intact')

@contract('C14', targets=[UI + 'post_parse_response'])
def several_aggregated(S):
    """two signed sources: what one says, and whether one is usable, has no bearing on the other"""
    ctx, srv, key, other = world(S)
    sub = S.str('sub')
    login(S, ctx, key, 'token_response', sub)
    two = S.choice('name of the second', 'src2', 'src10', 'src')
    order = ('src1', two)
    if S.flag('the other order'):
        order = (two, 'src1')
    said, toks = {}, {}
    signer = {'src1': 'https://claims', two: S.choice('second signer', 'https://claims', 'https://unknown', 'https://op')}
    for name in order:
        said[name] = {'email': S.str('email'), 'phone_number': S.str('phone')}
        toks[name] = {'jwt': name + '.signed.token', 'alg': 'RS256', 'good': True, 'verified_with': None,
                      'claims': dict(said[name], iss=signer[name], sub=S.str('evil_sub'))}
    install(S, [toks['src1'], toks[two]])
    names = S.record('names', {}, {'email': S.choice('email from', 'src1', two),
                                   'phone_number': S.choice('phone from', 'src1', two)})
    resp = {'sub': sub, '_claim_names': names, '_claim_sources': {}}
    for name in order:
        resp['_claim_sources'][name] = {'JWT': name + '.signed.token'}
    out = S.call(srv.parse_response, resp, 'dict', key)
    S.check(out.ok, 'sources that verify, and sources whose keys are not known, do no harm')
    if not out.ok:
        return
    S.check(out.value['sub'] == sub, 'the subject is never replaced')
    for claim in ('email', 'phone_number'):
        source = names.get(claim)
        if source is not None and signer[source] != 'https://unknown':
            S.check(claim in out.value and out.value[claim] == said[source][claim],
                    'a claim is what the source named for it says')
            S.cover('added')
        else:
            S.check(claim not in out.value, 'no claim is taken from a source not named for it or not verified')
            S.cover('not added')
    for name in order:
        if signer[name] != 'https://unknown':
            S.check(toks[name]['verified_with'] == [signer[name]], 'each is verified with the keys of its issuer')


@contract('C14', targets=[SRV + '_do_jwt', UI + 'post_parse_response', SRV + 'parse_response',
                          'oidcrp.service_context.ServiceContext.get_sign_alg',
                          'oidcrp.service_context.ServiceContext.get_enc_alg_enc'])
def signed(S):
    """user info as a signed JWT"""
    ctx, srv, key, other = world(S)
    sub, got = S.str('sub'), S.str('received_sub')
    login(S, ctx, key, 'token_response', sub)
    reg = S.choice('registered', 'none', 'RS256', 'supported', 'any supported')
    allowed = None
    if reg == 'RS256':
        ctx.behaviour['userinfo_signed_response_alg'] = 'RS256'
        allowed = ['RS256']
    elif reg == 'supported':
        ctx.provider_info['userinfo_signing_alg_values_supported'] = ['RS256', 'ES256']
        allowed = ['RS256', 'ES256']
    elif reg == 'any supported':
        allowed = S.texts('supported')
        ctx.provider_info['userinfo_signing_alg_values_supported'] = allowed
    signer = S.choice('signer', 'https://op', 'https://unknown', 'nobody')
    claims = {'sub': got, 'email': S.str('email')}
    if signer != 'nobody':
        claims['iss'] = signer
    tok = {'jwt': 'the.signed.token', 'alg': S.choice('alg', 'RS256', 'ES256', 'HS256', 'none'),
           'good': S.flag('signature verifies'), 'verified_with': None, 'claims': claims}
    install(S, [tok])
    text = 'the.signed.token' if S.flag('a JWT') else S.str('text')
    out = S.call(srv.parse_response, text, 'jwt', key)
    if out.ok:
        S.check(text == tok['jwt'] and tok['good'], 'accepted: the signature verifies')
        S.check(tok['verified_with'] in (['https://op'], ['']), 'accepted: with a key of the provider or of this client')
        S.check(tok['alg'] != 'none' and (not allowed or tok['alg'] in allowed), 'accepted: with an allowed algorithm')
        S.check(got == sub and out.value['sub'] == sub, 'accepted: about the subject of the ID token')
        S.check(out.value['email'] == tok['claims']['email'], 'accepted: the claims are those signed')
        S.cover('accepted')
    else:
        S.check(text != tok['jwt'] or not tok['good'] or got != sub or tok['alg'] == 'none' or
                signer == 'https://unknown' or (allowed and tok['alg'] not in allowed),
                'a proper signed response is accepted')
        S.check(stored_sub(ctx, key) is None, 'refused: nothing is stored')
        S.cover('refused')


class Sources:
    """stands for the HTTP library: what the claims sources answer"""

    def __init__(self, answers):
        self.answers = answers
        self.sent = []

    def send(self, url, method='GET', **kwargs):
        self.sent.append((url, method, kwargs))
        return self.answers[url]


class Answer:
    def __init__(self, status_code, text):
        self.status_code = status_code
        self.text = text
        self.reason = 'reason'


@contract('C14', targets=['oidcrp.oidc.RP.fetch_distributed_claims', 'oidcrp.client_auth.BearerHeader.construct',
                          'oidcrp.client_auth.find_token'])
def distributed(S):
    """claims fetched from other sources: named, and never the subject"""
    ctx, srv, key, other = world(S)
    client = make_client(S, ctx, userinfo=srv)
    srv.client_get = client.client_get
    sub, own, mail, phone = S.str('sub'), S.str('own_phone'), S.str('email'), S.str('phone')
    login(S, ctx, key, 'token_response', sub)
    tok = S.str('token')
    S.assume(tok != '')
    asked = []

    def callback(endpoint):
        asked.append(endpoint)
        return tok
    how = S.choice('access', 'token in the spec', 'token of the caller', 'none')
    spec = {'endpoint': 'https://claims/1'}
    if how == 'token in the spec':
        spec['access_token'] = tok
    names = S.record('names', {}, {'email': S.choice('email from', 'src1', 'src2'), 'sub': 'src1'})
    info = {'sub': sub, 'phone_number': own, '_claim_names': names, '_claim_sources': {'src1': spec}}
    two = S.flag('second source')
    if two:
        info['_claim_sources']['src2'] = {'endpoint': 'https://claims/2', 'access_token': 'other-token'}
    else:
        S.assume(names.get('email') != 'src2')
    sent1 = S.record('sent', {}, {'sub': S.str('evil_sub'), 'phone_number': phone, 'email': mail})
    S.assume(not ('email' in names and names['email'] == 'src1') or 'email' in sent1)
    status = S.int('status', 100, 599)
    client.http = Sources({'https://claims/1': Answer(status, json.dumps(sent1)),
                           'https://claims/2': Answer(200, json.dumps({'email': 'second', 'name': 'x'}))})
    user = OpenIDSchema(**info)
    out = S.call(client.fetch_distributed_claims, user, callback if how == 'token of the caller' else None)
    url, method, kw = client.http.sent[0]
    S.check(url == 'https://claims/1' and method == 'GET', 'each source is asked at its own endpoint')
    if how == 'none':
        S.check('headers' not in kw, 'no token is sent that was not given for the source')
    else:
        S.check(kw['headers'] == {'Authorization': 'Bearer ' + tok}, 'the token given for the source is sent')
    S.check(asked == (['https://claims/1'] if how == 'token of the caller' else []),
            'the caller is asked for a token only where the source has none')
    S.check(user['sub'] == sub, 'the subject is never replaced')
    S.check(user['phone_number'] == own and 'name' not in user,
            'claims the source is not named for are not taken from it')
    S.check(out.ok == (status == 200), 'only a successful answer counts')
    if out.ok:
        S.check(out.value['sub'] == sub, 'the subject that is returned is the verified one')
        if 'email' not in names:
            S.check('email' not in out.value, 'a claim is added only from a source that is named')
            S.cover('nothing added')
        else:
            S.check(out.value['email'] == (mail if names['email'] == 'src1' else 'second'),
                    'a claim comes from the source that is named for it')
            S.cover('added')
        if two:
            S.check(client.http.sent[1] == ('https://claims/2', 'GET',
                                            {'headers': {'Authorization': 'Bearer other-token'}}),
                    'the second source gets its own token')
    else:
        S.check('email' not in user, 'nothing is added from a source that fails')
        S.check(len(client.http.sent) == 1, 'and no other source is asked')
        S.cover('refused')
