"""C13 the authorization request and the token request that follows."""
import copy
from urllib.parse import parse_qs
from urllib.parse import urlsplit

from dv.api import contract

from contracts.common import free_key, make_client, make_context, make_handler, make_service

from oidcmsg.message import Message
from oidcmsg.oauth2 import AuthorizationRequest
from oidcrp.oauth2 import access_token as o2_at
from oidcrp.oauth2 import authorization as o2_authz
from oidcrp.oidc import access_token as oidc_at
from oidcrp.oidc import authorization as oidc_authz

RH = 'oidcrp.rp_handler.RPHandler.'
AZ = 'oidcrp.oidc.authorization.Authorization.'
UT = 'oidcrp.oauth2.utils.'

SCOPES = (['openid'], ['openid', 'email'], ['profile', 'openid'])
TYPES = ('code', 'id_token', 'code id_token', 'id_token token', 'token id_token', 'code token')


def client_for(S, name, flavour, iss, scope, rtype, how='redirect_uris', **attrs):
    ctx = make_context(S, issuer=iss, client_id=S.str('client_id' + name), client_secret='secret', **attrs)
    cb = S.str('callback' + name)
    if how == 'redirect_uris':
        ctx.redirect_uris = [cb, cb + 'other']
    else:
        ctx.callback = {'code': cb + 'code', 'implicit': cb + 'implicit', 'form_post': cb + 'form_post'}
    ctx.provider_info = {'token_endpoint': 'https://op/token' + name, 'issuer': iss,
                         'authorization_endpoint': 'https://op/authz' + name}
    ctx.behaviour = {'response_types': [rtype], 'scope': list(scope)}
    client = make_client(S, ctx)
    if flavour == 'oidc':
        make_service(S, oidc_authz.Authorization, client=client)
        make_service(S, oidc_at.AccessToken, client=client)
    else:
        make_service(S, o2_authz.Authorization, client=client)
        make_service(S, o2_at.AccessToken, client=client)
    return client, ctx


def query(S, url, endpoint):
    S.check(url.startswith(endpoint + '?'), 'the URL goes to the authorization endpoint of the provider')
    return parse_qs(urlsplit(url).query)


def one(S, q, name, value, label):
    S.check(name in q and q[name] == [value], label)


@contract('C13', targets=[RH + 'begin', RH + 'init_authorization', RH + 'client_setup', RH + '_get_response_type',
                          AZ + 'set_state', AZ + 'oidc_pre_construct', AZ + 'oidc_post_construct',
                          'oidcrp.oauth2.authorization.Authorization.store_auth_request',
                          'oidcrp.oauth2.authorization.Authorization.gather_request_args',
                          UT + 'pick_redirect_uri', UT + 'pre_construct_pick_redirect_uri', UT + 'set_state_parameter',
                          'oidcrp.service.Service.construct', 'oidcrp.service.Service.gather_request_args',
                          'oidcrp.service.Service.get_request_parameters'])
def begin(S):
    """begin for any configuration and any arguments"""
    flavour = S.choice('flavour', 'oidc', 'oauth2')
    iss = S.str('iss')
    iss2 = S.str('other_issuer')
    S.assume(iss != iss2)
    scope = S.choice('scope', *SCOPES)
    rtype = S.choice('response_type', *TYPES)
    how = S.choice('how', 'redirect_uris', 'callback')
    client, ctx = client_for(S, '', flavour, iss, scope, rtype, how)
    client2, ctx2 = client_for(S, '2', flavour, iss2, ['openid'], 'code')
    ctx2.state = ctx.state
    rph = make_handler(S, issuer2rp={iss: client, iss2: client2})
    args = S.choice('arguments', 'none', 'empty', 'response_type', 'scope', 'own state', 'prompt', 'form_post')
    req_args = None
    if args == 'empty':
        req_args = {}
    elif args == 'response_type':
        rtype = S.choice('wanted', 'code', 'token id_token')
        req_args = {'response_type': rtype}
    elif args == 'scope':
        req_args = {'scope': ['openid', 'phone']}
        scope = ['openid', 'phone']
    elif args == 'own state':
        req_args = {'state': S.str('own_state')}
    elif args == 'prompt':
        req_args = {'prompt': ['none'], 'max_age': S.int('max_age', 0)}
    elif args == 'form_post':
        req_args = {'response_mode': 'form_post'}
    given = copy.deepcopy(req_args)
    db = S.snapshot(ctx.state._db)
    behaviour = copy.deepcopy(ctx.behaviour)
    info = dict(ctx.provider_info)
    out = S.call(rph.begin, issuer_id=iss, req_args=req_args)
    S.check(out.ok, 'an authentication can begin')
    S.check(req_args == given, 'the arguments of the caller are not changed')
    S.check(ctx.behaviour == behaviour and ctx.provider_info == info, 'the configuration is not changed')
    state = out.value['state']
    q = query(S, out.value['url'], 'https://op/authz')
    S.check(S.is_random(state) and len(state) >= 16, 'the state is new and random')
    one(S, q, 'state', state, 'the request carries that state')
    one(S, q, 'client_id', ctx.client_id, 'the request carries the identifier of the client')
    one(S, q, 'response_type', rtype, 'the request asks for the configured response type')
    S.check('scope' in q and q['scope'][0].split(' ') == scope, 'the request asks for the configured scope')
    if how == 'redirect_uris':
        uris = ctx.redirect_uris
    else:
        uris = [ctx.callback['implicit']]
        if rtype == 'code':
            uris = [ctx.callback['code']]
        S.cover('callback')
    S.check('redirect_uri' in q and len(q['redirect_uri']) == 1, 'there is one redirect URI')
    ruri = q['redirect_uri'][0]
    S.check(ruri in ctx.redirect_uris or ruri in ctx.callback.values(),
            'the redirect URI is one of those registered')
    if args != 'form_post':
        S.check(ruri in uris, 'the redirect URI is the one for the response type')
    stored = ctx.state.get_item(AuthorizationRequest, 'auth_request', state)
    S.check(stored['state'] == state and stored['redirect_uri'] == ruri and stored['client_id'] == ctx.client_id,
            'the request is stored under its state')
    S.check(ctx.state.get_iss(state) == iss, 'the session belongs to the provider')
    S.check(rph.state2issuer(state) == iss and rph.get_client_from_session_key(state) is client,
            'the session leads to the client')
    if flavour == 'oidc':
        S.check('nonce' in q and len(q['nonce']) == 1, 'the request carries a nonce')
        nonce = q['nonce'][0]
        S.check(S.is_random(nonce) and len(nonce) >= 16 and nonce != state, 'the nonce is random')
        S.check(stored['nonce'] == nonce, 'the nonce is stored with the request')
        S.check(ctx.state.get_state_by_nonce(nonce) == state, 'the nonce leads to the session')
        S.check(S.unchanged_except(db, ctx.state._db, [state, '__' + nonce + '__', 'ref' + state + 'ref']), 'no other session is touched')
        S.cover('oidc')
    else:
        S.cover('oauth2')
    if args == 'prompt':
        one(S, q, 'prompt', 'none', 'arguments are part of the request')
        one(S, q, 'max_age', str(req_args['max_age']), 'arguments are part of the request')


@contract('C13', targets=[RH + 'begin', AZ + 'set_state'])
def begin_twice(S):
    """two beginnings: two sessions; each in its own issuer"""
    flavour = S.choice('flavour', 'oidc', 'oauth2')
    iss = S.str('iss')
    iss2 = S.str('other_issuer')
    S.assume(iss != iss2)
    client, ctx = client_for(S, '', flavour, iss, ['openid'], 'code')
    client2, ctx2 = client_for(S, '2', flavour, iss2, ['openid', 'email'], 'code')
    ctx2.state = ctx.state
    rph = make_handler(S, issuer2rp={iss: client, iss2: client2})
    first = S.call(rph.begin, issuer_id=iss)
    S.check(first.ok, 'an authentication can begin')
    s1 = first.value['state']
    which = S.choice('second', 'same', 'other')
    c, x, e = client, ctx, 'https://op/authz'
    if which == 'other':
        c, x, e = client2, ctx2, 'https://op/authz2'
    before = S.snapshot(ctx.state._db)
    second = S.call(rph.begin, issuer_id=x.issuer)
    S.check(second.ok, 'another authentication can begin')
    s2 = second.value['state']
    S.check(s1 != s2, 'every beginning has a state of its own')
    q1 = query(S, first.value['url'], 'https://op/authz')
    q2 = query(S, second.value['url'], e)
    one(S, q2, 'client_id', x.client_id, 'the client of the chosen provider')
    S.check(q2['redirect_uri'][0] in x.redirect_uris, 'the redirect URI of the chosen client')
    S.check(ctx.state.get_iss(s1) == iss and ctx.state.get_iss(s2) == x.issuer, 'sessions belong to their providers')
    a1 = ctx.state.get_item(AuthorizationRequest, 'auth_request', s1)
    a2 = ctx.state.get_item(AuthorizationRequest, 'auth_request', s2)
    S.check(a1['state'] == s1 and a2['state'] == s2, 'each session has its own request')
    if flavour == 'oidc':
        n1, n2 = q1['nonce'][0], q2['nonce'][0]
        S.check(n1 != n2, 'every beginning has a nonce of its own')
        S.check(ctx.state.get_state_by_nonce(n1) == s1 and ctx.state.get_state_by_nonce(n2) == s2,
                'each nonce leads to its own session')
        S.check(S.unchanged_except(before, ctx.state._db, [s2, '__' + n2 + '__', 'ref' + s2 + 'ref']), 'the first session is not touched')
    S.cover(which)


@contract('C13', targets=[AZ + 'oidc_pre_construct', 'oidcrp.service.Service.do_pre_construct'])
def any_scope(S):
    """however much is asked for, the scope is what was asked for and openid"""
    client, ctx = client_for(S, '', 'oidc', 'https://op', ['openid'], 'code')
    asked, configured = S.texts('asked'), S.texts('configured')
    where = S.choice('scope', 'asked', 'configured', 'nowhere')
    req_args = {}
    wanted = ['openid']
    ctx.behaviour.pop('scope', None)
    if where == 'asked':
        req_args['scope'] = asked
        wanted = asked
    if where != 'nowhere':
        ctx.behaviour['scope'] = configured
    if where == 'configured':
        wanted = configured
    before, before_asked = S.snapshot(configured), S.snapshot(asked)
    v = S.str('value')
    is_wanted = v in wanted
    out = S.call(client._service['authorization'].do_pre_construct, req_args)
    S.check(out.ok, 'the arguments are prepared')
    args = out.value[0]
    S.check((v in args['scope']) == (is_wanted or v == 'openid'), 'the scope is what was asked for and openid')
    S.check((v in configured) == (v in before) and (v in asked) == (v in before_asked), 'no list of the caller is changed')
    if is_wanted:
        S.cover(where)


@contract('C13', targets=[AZ + 'oidc_pre_construct', AZ + 'oidc_post_construct', AZ + 'set_state'])
def direct(S):
    """the authorization service used directly, with as little as possible in the arguments"""
    scope = S.choice('scope', ['openid'], ['email'], 'none')
    rt, rtype = S.choice('response type', ('configured', 'code'), ('configured', 'token id_token'),
                         ('asked', 'id_token'), ('asked', 'code id_token'), ('asked', 'token id_token'))
    iss = 'https://op'
    client, ctx = client_for(S, '', 'oidc', iss, ['openid'], rtype if rt == 'configured' else 'code')
    if scope == 'none':
        del ctx.behaviour['scope']
    else:
        ctx.behaviour['scope'] = list(scope)
    behaviour = copy.deepcopy(ctx.behaviour)
    srv = client._service['authorization']
    req_args = {}
    kwargs = {}
    how = S.choice('given state', 'none', 'argument', 'keyword')
    key = ''
    if how != 'none':
        key = free_key(S, 'key')
        if how == 'argument':
            req_args['state'] = key
        else:
            kwargs['state'] = key
    if rt == 'asked':
        req_args['response_type'] = rtype
    sc = S.choice('asked scope', 'nothing', 'list', 'string')
    mine = ['email', 'phone', 'openid2']
    if sc == 'list':
        req_args['scope'] = mine
    elif sc == 'string':
        req_args['scope'] = 'email phone openid2'
    own = S.flag('own nonce')
    if own:
        req_args['nonce'] = S.str('own_nonce')
    out = S.call(srv.get_request_parameters, request_args=req_args, **kwargs)
    S.check(out.ok, 'a request can be made')
    S.check(mine == ['email', 'phone', 'openid2'], 'the arguments of the caller are not changed')
    S.check(ctx.behaviour == behaviour, 'the configuration is not changed')
    q = query(S, out.value['url'], 'https://op/authz')
    S.check('state' in q, 'there is a state')
    state = q['state'][0]
    if how != 'none':
        S.check(state == key, 'a state that is given is used')
    else:
        S.check(S.is_random(state), 'the state is random')
    S.check(ctx.state.get_iss(state) == iss, 'the session exists')
    S.check('openid' in q['scope'][0].split(' '), 'the scope has openid')
    if sc != 'nothing':
        S.check('email' in q['scope'][0].split(' ') and 'phone' in q['scope'][0].split(' '),
                'the scope that was asked for is kept')
    one(S, q, 'response_type', rtype, 'the response type is the one asked for')
    if 'nonce' not in q:
        S.check(False, 'there is a nonce')
        return
    nonce = q['nonce'][0]
    if own:
        S.check(nonce == req_args['nonce'], 'a nonce that is given is used')
    else:
        S.check(S.is_random(nonce), 'the nonce is random')
    S.check(ctx.state.get_state_by_nonce(nonce) == state, 'the nonce leads to the session')
    stored = ctx.state.get_item(AuthorizationRequest, 'auth_request', state)
    S.check(stored['nonce'] == nonce and stored['redirect_uri'] == q['redirect_uri'][0],
            'the request is stored as it is sent')
    S.cover('done')


@contract('C13', targets=[RH + 'init_authorization'])
def configured_args(S):
    """request arguments from the configuration are used, again and again"""
    flavour = 'oidc'
    iss = 'https://op'
    client, ctx = client_for(S, '', flavour, iss, ['openid'], 'code')
    hint = S.str('acr', no=(' ',))
    conf = {'request_args': {'acr_values': [hint], 'claims': {'id_token': {'auth_time': {'essential': True}}},
                             'state': 'fixed'}}
    ctx.config = conf
    before = copy.deepcopy(conf)
    rph = make_handler(S, issuer2rp={iss: client})
    one_ = S.call(rph.begin, issuer_id=iss)
    two = S.call(rph.begin, issuer_id=iss)
    S.check(one_.ok and two.ok, 'an authentication can begin')
    S.check(conf['request_args']['acr_values'] == [hint] and conf['request_args']['state'] == 'fixed' and
            isinstance(conf['request_args']['claims'], dict), 'the configuration is not changed')
    q1 = query(S, one_.value['url'], 'https://op/authz')
    q2 = query(S, two.value['url'], 'https://op/authz')
    S.check('claims' in q1 and 'claims' in q2 and q1['claims'] == q2['claims'], 'claims are asked for every time')
    one(S, q2, 'acr_values', hint, 'configured arguments are used')
    S.check(S.is_random(q1['state'][0]) and S.is_random(q2['state'][0]) and q1['state'] != q2['state'],
            'the state is random all the same')
    S.cover('done')


@contract('C13', targets=[RH + 'init_authorization', 'oidcrp.service.Service.gather_request_args'])
def which_argument_counts(S):
    """the arguments of the call count more than those of the configuration, and those more than the defaults"""
    flavour = S.choice('flavour', 'oidc', 'oauth2')
    iss = 'https://op'
    name = S.choice('argument', 'scope', 'redirect_uri', 'response_type', 'ui_locales', 'nonce')
    implicit = name == 'nonce' and S.flag('a token only')
    client, ctx = client_for(S, '', flavour, iss, ['openid'], 'token' if implicit else 'code')
    values = {'scope': ('openid', 'openid email', 'openid phone'),
              'redirect_uri': (ctx.redirect_uris[0], ctx.redirect_uris[1], ctx.redirect_uris[1]),
              'response_type': ('code', 'code token', 'code id_token'),
              'ui_locales': (None, 'sv', 'en'),
              'nonce': (None, S.str('n1'), S.str('n2'))}[name]
    where = S.choice('given in', 'nothing', 'configuration', 'call', 'both')
    S.assume(not (name == 'nonce' and where == 'nothing'))
    want = values[0]
    args = None
    conf = {'request_args': {'display': 'page'}}
    if where in ('configuration', 'both'):
        want = values[1]
        conf['request_args'][name] = want
    if where in ('call', 'both'):
        want = values[2]
        args = {name: want}
    ctx.config = conf
    rph = make_handler(S, issuer2rp={iss: client})
    out = S.call(rph.begin, issuer_id=iss, req_args=args)
    S.check(out.ok, 'an authentication can begin')
    q = query(S, out.value['url'], 'https://op/authz')
    if want is None:
        S.check(name not in q, 'what nobody asked for is not in the request')
    elif not (name == 'nonce' and flavour == 'oauth2'):
        one(S, q, name, want, 'the value that counts is in the request')
    one(S, q, 'display', 'page', 'configured arguments are used')
    state = q['state'][0]
    stored = ctx.state.get_item(AuthorizationRequest, 'auth_request', state)
    S.check(stored['redirect_uri'] == q['redirect_uri'][0], 'the request is stored as it is sent')
    if flavour == 'oidc' and name == 'nonce' and not implicit:
        S.check(ctx.state.get_state_by_nonce(want) == state, 'the nonce leads to the session')
    S.cover(where)


@contract('C13', targets=[RH + 'get_tokens', 'oidcrp.oauth2.access_token.AccessToken.oauth_pre_construct',
                          'oidcrp.state_interface.StateInterface.extend_request_args'])
def token_request(S):
    """the token request of a session repeats the redirect URI and code of that session"""
    flavour = S.choice('flavour', 'oidc', 'oauth2')
    iss = S.str('iss')
    client, ctx = client_for(S, '', flavour, iss, ['openid'], 'code')
    rph = make_handler(S, issuer2rp={iss: client})
    sent = []

    def http(url, method, **kwargs):
        sent.append((url, method, kwargs))
        raise OSError('no network')
    client.http = http
    key, other = free_key(S, 'key'), free_key(S, 'other_key')
    S.assume(key != other)
    code, uri = {}, {}
    for k, n in ((key, 'a'), (other, 'b')):
        code[k] = S.str('code_' + n)
        uri[k] = S.str('uri_' + n)
        ctx.state.create_state(iss, k)
        ctx.state.store_item(Message(redirect_uri=uri[k], client_id=ctx.client_id, response_type='code', state=k,
                                     scope='openid', nonce='n' + n), 'auth_request', k)
        ctx.state.store_item(Message(code=code[k], state=k), 'auth_response', k)
    srv = client._service['accesstoken']
    via = S.choice('via', 'handler', 'service')
    if via == 'handler':
        S.call(rph.get_tokens, key, client if S.flag('client given') else None)
        S.check(len(sent) == 1, 'one request is sent')
        url, method, kw = sent[0]
        body = kw['data']
        S.cover('handler')
    else:
        out = S.call(srv.get_request_parameters, request_args={}, state=key)
        S.check(out.ok, 'a token request can be made')
        url, method, body = out.value['url'], out.value['method'], out.value['body']
        S.cover('service')
    q = parse_qs(body)
    S.check(url == 'https://op/token' and method == 'POST', 'the request is posted to the token endpoint')
    one(S, q, 'code', code[key], 'the code is that of the session')
    one(S, q, 'redirect_uri', uri[key], 'the redirect URI is that of the authorization request')
    one(S, q, 'grant_type', 'authorization_code', 'the grant type is the authorization code')
    if 'client_id' in q:
        one(S, q, 'client_id', ctx.client_id, 'the client is the same')
