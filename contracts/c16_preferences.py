"""C16 what the client does is what both sides want."""
from dv.api import contract

from contracts.common import make_client, make_context, make_service

from oidcmsg.oidc import ProviderConfigurationResponse
from oidcrp.exception import ConfigurationError
from oidcrp.oidc import provider_info_discovery as oidc_pi
from oidcrp.oidc import registration

OI = 'oidcrp.oidc.provider_info_discovery.ProviderInfoDiscovery.'

# preference of the client: (where the provider says what it supports, default of the specification, a list of values)
PREFS = {
    'request_object_signing_alg': ('request_object_signing_alg_values_supported', None, False),
    'request_object_encryption_alg': ('request_object_encryption_alg_values_supported', None, False),
    'request_object_encryption_enc': ('request_object_encryption_enc_values_supported', None, False),
    'userinfo_signed_response_alg': ('userinfo_signing_alg_values_supported', None, False),
    'userinfo_encrypted_response_alg': ('userinfo_encryption_alg_values_supported', None, False),
    'userinfo_encrypted_response_enc': ('userinfo_encryption_enc_values_supported', None, False),
    'id_token_signed_response_alg': ('id_token_signing_alg_values_supported', 'RS256', False),
    'id_token_encrypted_response_alg': ('id_token_encryption_alg_values_supported', None, False),
    'id_token_encrypted_response_enc': ('id_token_encryption_enc_values_supported', None, False),
    'default_acr_values': ('acr_values_supported', None, True),
    'subject_type': ('subject_types_supported', None, False),
    'token_endpoint_auth_method': ('token_endpoint_auth_methods_supported', 'client_secret_basic', False),
    'token_endpoint_auth_signing_alg': ('token_endpoint_auth_signing_alg_values_supported', None, False),
    'response_types': ('response_types_supported', None, True),
    'grant_types': ('grant_types_supported', None, True),
    'scope': ('scopes_supported', None, True),
}
NAMES = tuple(PREFS)


class Keys:
    def load_keys(self, issuer_id, jwks_uri='', jwks=None, replace=False):
        pass


def values(S, name, shape):
    if shape == 0:
        return []
    if shape == 1:
        return [S.str(name + '0')]
    if shape == 2:
        return [S.str(name + '0'), S.str(name + '1')]
    return [S.str(name + '0'), S.str(name + '1'), S.str(name + '2')]


def check_choice(S, pref, want, supported, chosen, present):
    """want: what the client prefers (text or list); supported: list or None if nothing is known"""
    many = PREFS[pref][2]
    wanted = [want] if isinstance(want, str) else want
    both = [v for v in wanted if supported is None or v in supported]
    if not present:
        S.check(both == [], 'a value both sides know is chosen')
        S.cover('left out')
        return
    if isinstance(chosen, list):
        S.check(chosen == both, 'the values chosen are exactly those both sides know, in the order of preference')
        S.check(many, 'one value where there can be one')
        S.cover('several')
    else:
        S.check(both != [] and chosen == both[0], 'the value chosen is the first both sides know')
        S.check(not many or isinstance(want, str), 'a list where there can be several')
        S.cover('one')


@contract('C16', targets=[OI + 'match_preferences'],
          bounded='lists of at most 2 preferred and 2 supported values (of any content)')
def one_preference(S):
    """any single preference against any provider"""
    pref = S.choice('pref', *NAMES)
    ctx = make_context(S, issuer='https://op')
    srv = make_service(S, oidc_pi.ProviderInfoDiscovery, ctx)
    shape = S.choice('wanted', 'text', 0, 1, 2)
    want = S.str('want') if shape == 'text' else values(S, 'want', shape)
    ctx.client_preferences = {pref: want}
    said = S.choice('said', 'nothing', 0, 1, 2)
    claim, default, many = PREFS[pref]
    pcr = {'issuer': 'https://op'}
    if said != 'nothing':
        pcr[claim] = values(S, 'supp', said)
    supported = pcr.get(claim)
    if supported is None and default is not None:
        supported = [default]
    before = S.snapshot(ctx.client_preferences)
    before_pcr = S.snapshot(pcr)
    how = S.choice('how', 'first match', 'again', 'stored metadata')
    if how == 'again':
        # with another provider, or before the metadata changed
        ctx.behaviour = {pref: S.str('old')}
    given = how != 'stored metadata'
    if not given:
        ctx.provider_info = pcr
    out = S.call(srv.match_preferences, pcr if given else None, 'https://op')
    S.check(S.same(before, ctx.client_preferences), 'the preferences are not changed')
    S.check(S.same(before_pcr, pcr), 'the metadata is not changed')
    if out.ok:
        check_choice(S, pref, want, supported, ctx.behaviour.get(pref), pref in ctx.behaviour)
    else:
        S.check(out.exc is ConfigurationError, 'no match is a configuration error')
        check_choice(S, pref, want, supported, None, False)
        S.check(pref not in ctx.behaviour, 'without a match nothing is chosen')
        S.cover('error')


@contract('C16', targets=[OI + 'match_preferences'])
def lists_of_any_length(S):
    """any single preference against any provider, however many values are preferred and supported"""
    pref = S.choice('pref', *NAMES)
    ctx = make_context(S, issuer='https://op')
    srv = make_service(S, oidc_pi.ProviderInfoDiscovery, ctx)
    single = S.flag('one value')
    want = S.str('want') if single else S.texts('wanted')
    ctx.client_preferences = {pref: want}
    claim, default, many = PREFS[pref]
    pcr = {'issuer': 'https://op'}
    said = S.choice('said', 'nothing', 'a value', 'values')
    if said == 'a value':
        pcr[claim] = S.str('supp')
    elif said == 'values':
        pcr[claim] = S.texts('supported')
    before = S.snapshot(ctx.client_preferences)
    if S.flag('again'):
        ctx.behaviour = {pref: S.str('old')}
    given = S.flag('given')
    if not given:
        ctx.provider_info = pcr
    out = S.call(srv.match_preferences, pcr if given else None, 'https://op')
    S.check(S.same(before, ctx.client_preferences), 'the preferences are not changed')
    # an arbitrary value
    v = S.str('value', nonempty=False)
    preferred = v == want if single else v in want
    if said == 'values':
        supported = v in pcr[claim]
    elif said == 'a value':
        supported = v == pcr[claim]
    elif default is not None:
        supported = v == default
    else:
        supported = True
    both = preferred and supported
    present = pref in ctx.behaviour
    if out.ok and present:
        chosen = ctx.behaviour[pref]
        if isinstance(chosen, list):
            S.check(many, 'one value where there can be one')
            S.check((v in chosen) == both, 'the values chosen are exactly those both sides know')
            S.cover('several')
        else:
            S.check(not many or single, 'a list where there can be several')
            if v == chosen:
                S.check(both, 'the value chosen is one both sides know')
                S.cover('one')
    else:
        S.check(not both, 'a value both sides know is chosen')
        S.check(out.ok or out.exc is ConfigurationError, 'no match is a configuration error')
        S.check(not present, 'without a match nothing is chosen')
        S.cover('none')


@contract('C16', targets=[OI + 'match_preferences', OI + 'update_service_context'],
          bounded='two preferences at a time out of five')
def several_preferences(S):
    """preferences do not influence each other; a full discovery response"""
    ctx = make_context(S, issuer='https://op')
    ctx.keyjar = Keys()
    srv = make_service(S, oidc_pi.ProviderInfoDiscovery, ctx)
    five = ('id_token_signed_response_alg', 'token_endpoint_auth_method', 'response_types', 'scope', 'subject_type')
    a = S.choice('a', *five)
    b = S.choice('b', *five)
    S.assume(a != b)
    wa, wb = [S.str('wa')], [S.str('wb0'), S.str('wb1')]
    sa, sb = [S.str('sa0'), S.str('sa1')], [S.str('sb')]
    ctx.client_preferences = {a: wa, 'client_name': S.str('client_name'), b: wb}
    if S.flag('contacts'):
        ctx.client_preferences['contacts'] = ['ops@example.org']
    if S.flag('own'):
        ctx.client_preferences['my_own_setting'] = S.str('own setting')
    before = S.snapshot(ctx.client_preferences)
    eps = {'authorization_endpoint': 'https://op/a', 'token_endpoint': 'https://op/t', 'jwks_uri': 'https://op/j'}
    md = dict(eps)
    md['issuer'] = 'https://op'
    md['response_types_supported'] = ['code']
    md['subject_types_supported'] = ['public']
    md['id_token_signing_alg_values_supported'] = ['RS256']
    md[PREFS[a][0]] = sa
    md[PREFS[b][0]] = sb
    out = S.call(srv.update_service_context, ProviderConfigurationResponse(**md))
    S.check(S.same(before, ctx.client_preferences), 'the preferences are not changed')
    beh = ctx.behaviour
    if out.ok:
        check_choice(S, a, wa, sa, beh.get(a), a in beh)
        check_choice(S, b, wb, sb, beh.get(b), b in beh)
        for k in ctx.client_preferences:
            if k not in (a, b):
                S.check(k in beh and beh[k] == ctx.client_preferences[k], 'a preference providers have no say in is kept')
        S.check(all(k in ctx.client_preferences for k in beh), 'nothing else is chosen')
        S.cover('matched')
    else:
        S.check(out.exc is ConfigurationError, 'no match is a configuration error')
        none_a = not PREFS[a][2] and wa[0] not in sa
        none_b = not PREFS[b][2] and wb[0] not in sb and wb[1] not in sb
        S.check(none_a or none_b, 'an error only without a match')
        S.cover('refused')


def seen_from(S, pref, wanted, supported, ctx, v):
    """an arbitrary value, seen from one preference"""
    both = v in wanted and v in supported
    if pref not in ctx.behaviour:
        S.check(not both, 'a value both sides know is chosen')
        return
    chosen = ctx.behaviour[pref]
    if isinstance(chosen, list):
        S.check((v in chosen) == both, 'the values chosen are exactly those both sides know')
    elif v == chosen:
        S.check(both, 'the value chosen is one both sides know')


@contract('C16', targets=[OI + 'match_preferences'], bounded='two preferences at a time out of sixteen, lists of any length')
def any_two_preferences(S):
    """what is chosen for one preference does not depend on another one, however many values there are"""
    ctx = make_context(S, issuer='https://op')
    srv = make_service(S, oidc_pi.ProviderInfoDiscovery, ctx)
    a = S.choice('a', *NAMES)
    b = S.choice('b', *NAMES)
    S.assume(a != b)
    wa, wb = S.texts('wa'), S.texts('wb')
    sa, sb = S.texts('sa'), S.texts('sb')
    ctx.client_preferences = {a: wa, 'client_name': 'x', b: wb}
    pcr = {'issuer': 'https://op', PREFS[a][0]: sa, PREFS[b][0]: sb}
    out = S.call(srv.match_preferences, pcr, 'https://op')
    v = S.str('value')
    if out.ok:
        seen_from(S, a, wa, sa, ctx, v)
        seen_from(S, b, wb, sb, ctx, v)
        S.cover('matched')
    else:
        S.check(out.exc is ConfigurationError, 'no match is a configuration error')
        S.check((not PREFS[a][2] and a not in ctx.behaviour) or (not PREFS[b][2] and b not in ctx.behaviour),
                'an error only without a match')
        S.cover('refused')


@contract('C16', targets=['oidcrp.oidc.registration.Registration.add_client_behaviour_preference'])
def what_was_matched_is_registered(S):
    """the registration request asks for what was chosen, not for what only the client likes"""
    ctx = make_context(S, issuer='https://op')
    srv = make_service(S, registration.Registration, ctx)
    pref = S.choice('pref', 'id_token_signed_response_alg', 'token_endpoint_auth_method', 'subject_type', 'client_name')
    chosen, liked, asked = S.str('chosen'), S.str('liked'), S.str('asked')
    if S.flag('is chosen'):
        ctx.behaviour = {pref: chosen}
    if S.flag('is liked'):
        ctx.client_preferences = {pref: liked}
    req = {}
    if S.flag('is asked'):
        req[pref] = asked
    has = (pref in req, pref in ctx.behaviour, pref in ctx.client_preferences)
    out = S.call(srv.add_client_behaviour_preference, request_args=req)
    S.check(out.ok, 'the request is made')
    args = out.value[0]
    if has[0]:
        S.check(args[pref] == asked, 'what the caller asks for comes first')
        S.cover('asked')
    elif has[1]:
        S.check(args[pref] == chosen, 'then what was matched')
        S.cover('chosen')
    elif has[2]:
        S.check(args[pref] == liked, 'then what is preferred')
        S.cover('liked')
    else:
        S.check(pref not in args, 'nothing is made up')
        S.cover('none')
