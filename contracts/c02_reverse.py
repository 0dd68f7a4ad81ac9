"""C02 reverse lookups, C03 removal of a session."""
from dv.api import contract

from oidcmsg.message import Message
from oidcrp.state_interface import InMemoryStateDataBase
from oidcrp.state_interface import StateInterface

from contracts.c01_state import interface
from contracts.common import free_key as session_key
from contracts.common import make_client, make_context, make_handler

SI = 'oidcrp.state_interface.StateInterface.'
KINDS = ('nonce', 'subject', 'sid', 'logout')
BOUND = [SI + 'store_x2state', SI + 'get_state_by_x',
         SI + 'store_nonce2state', SI + 'get_state_by_nonce',
         SI + 'store_sub2state', SI + 'get_state_by_sub',
         SI + 'store_sid2state', SI + 'get_state_by_sid',
         SI + 'store_logout_state2state', SI + 'get_state_by_logout_state']


def bind(S, si, kind, value, key):
    if kind == 'nonce':
        return S.call(si.store_nonce2state, value, key)
    if kind == 'subject':
        return S.call(si.store_sub2state, value, key)
    if kind == 'sid':
        return S.call(si.store_sid2state, value, key)
    return S.call(si.store_logout_state2state, value, key)


def find(S, si, kind, value):
    if kind == 'nonce':
        return S.call(si.get_state_by_nonce, value)
    if kind == 'subject':
        return S.call(si.get_state_by_sub, value)
    if kind == 'sid':
        return S.call(si.get_state_by_sid, value)
    return S.call(si.get_state_by_logout_state, value)


def found(out):
    """what a lookup tells: the session, or None for KeyError, else a marker"""
    if out.ok:
        return out.value
    if out.exc is KeyError:
        return None
    return 'wrong exception'


def unbound(S, si, kind, value):
    S.assume(not find(S, si, kind, value).ok)


@contract('C02', targets=BOUND)
def bind_then_find(S):
    """one binding in a store with arbitrary other content"""
    si = interface(S)
    k1 = session_key(S, 'key1')
    iss1 = S.str('iss1')
    si.create_state(iss1, k1)
    kind = S.choice('kind', *KINDS)
    value = S.str('value')
    kind2 = S.choice('kind2', *KINDS)
    value2 = S.str('value2')
    S.assume(kind != kind2 or value != value2)
    k2 = session_key(S, 'key2')
    S.assume(k1 != k2)
    S.assume('ref{}ref'.format(k1) not in si._db)     # representation: no binding yet
    other = found(find(S, si, kind2, value2))
    si.create_state(S.str('iss2'), k2)
    out = bind(S, si, kind, value, k1)
    S.check(out.ok, 'binding returns')
    S.check(found(find(S, si, kind, value)) == k1, 'the value leads to the session it was bound to')
    S.check(found(find(S, si, kind2, value2)) == other,
            'another value, or the same value of another kind, leads where it led before')
    S.check(S.call(si.get_iss, k1).value == iss1, 'the session itself is unchanged')
    S.check(S.call(si.get_iss, k2).ok, 'other sessions are unchanged')
    S.cover('done')


@contract('C02', targets=BOUND)
def never_bound(S):
    """a value never bound is not found, whatever sessions exist"""
    si = StateInterface()
    k1 = session_key(S, 'key1')
    si.create_state(S.str('iss1'), k1)
    kind = S.choice('kind', *KINDS)
    value = S.str('value')
    kind2 = S.choice('kind2', *KINDS)
    value2 = S.str('value2')
    S.assume(kind != kind2 or value != value2)
    bind(S, si, kind, value, k1)
    before = S.snapshot(si._db)
    S.check(found(find(S, si, kind2, value2)) is None, 'an unknown value raises KeyError')
    S.check(S.unchanged_except(before, si._db), 'a lookup changes nothing')
    S.cover('done')


@contract('C02', targets=BOUND)
def two_bindings(S):
    """the second binding, same or other session, kind and value"""
    si = interface(S)
    k1 = session_key(S, 'key1')
    k2 = session_key(S, 'key2')
    si.create_state(S.str('iss1'), k1)
    si.create_state(S.str('iss2'), k2)
    S.assume('ref{}ref'.format(k1) not in si._db)
    S.assume('ref{}ref'.format(k2) not in si._db)
    kind1 = S.choice('kind1', *KINDS)
    kind2 = S.choice('kind2', *KINDS)
    v1 = S.str('value1')
    v2 = S.str('value2')
    bind(S, si, kind1, v1, k1)
    out = bind(S, si, kind2, v2, k2)
    S.check(out.ok, 'a second binding returns')
    S.check(found(find(S, si, kind2, v2)) == k2, 'the latest binding of a value decides')
    if kind1 == kind2 and v1 == v2:
        S.cover('rebound')
    else:
        S.check(found(find(S, si, kind1, v1)) == k1, 'an earlier binding of another value stays')
        S.cover('independent')


@contract('C02', targets=BOUND)
def bound_again(S):
    """three bindings to two sessions, back to an earlier session included; lookups in between make no difference"""
    si = StateInterface()
    keys = ('key-1', 'key-2')
    si.create_state(S.str('iss1'), 'key-1')
    si.create_state(S.str('iss2'), 'key-2')
    kind = S.choice('kind', *KINDS)
    values = [S.str('value1'), S.str('value2')]
    S.assume(values[0] != values[1])
    looked = S.flag('looked up in between')
    last = [None, None]
    for i in range(3):
        v, k = (S.choice('which%d' % i, 0, 1), S.choice('to%d' % i, 0, 1)) if i else (0, 0)
        if i == 2 and S.flag('the session begins anew'):
            S.call(si.remove_state, keys[k])
            si.create_state(S.str('iss3'), keys[k])
            last = [None if x == keys[k] else x for x in last]
        bind(S, si, kind, values[v], keys[k])
        last[v] = keys[k]
        if looked:
            S.check(found(find(S, si, kind, values[v])) == keys[k], 'a value leads to the session it was last bound to')
    for v in (0, 1):
        S.check(found(find(S, si, kind, values[v])) == last[v], 'a value leads to the session it was last bound to')
    S.cover('done')


@contract('C02', targets=BOUND)
def survives_storage(S):
    """lookups are unaffected by storing items in sessions"""
    si = StateInterface()
    k1 = session_key(S, 'key1')
    si.create_state(S.str('iss1'), k1)
    kind = S.choice('kind', *KINDS)
    v = S.str('value')
    bind(S, si, kind, v, k1)
    si.store_item(Message(code=S.str('code')), 'auth_response', k1)
    si.create_state(S.str('iss2'), session_key(S, 'key2'))
    S.check(found(find(S, si, kind, v)) == k1, 'the binding survives storage in the session')
    S.cover('done')


def removal(S, si, how, key, iss):
    if how == 'interface':
        return S.call(si.remove_state, key)
    client = make_client(S, make_context(S, issuer=iss, state=si))
    other = make_client(S, make_context(S, issuer='https://other.example.org'))
    if how == 'handler':
        rph = make_handler(S, issuer2rp={iss: client})
    else:
        rph = make_handler(S, issuer2rp={'https://other.example.org': other, iss: client})
    return S.call(rph.clear_session, key)


REMOVE = [SI + 'remove_state', 'oidcrp.rp_handler.RPHandler.clear_session', SI + 'store_x2state']


@contract('C03', targets=REMOVE)
def remove_bare(S):
    """a session without bindings, in an arbitrary store"""
    si = interface(S)
    k1 = session_key(S, 'key1')
    S.assume('ref{}ref'.format(k1) not in si._db)
    iss1 = S.str('iss1')
    S.assume(iss1 != 'https://other.example.org')
    si.create_state(iss1, k1)
    before = S.snapshot(si._db)
    out = removal(S, si, S.choice('how', 'interface', 'handler', 'second client'), k1, iss1)
    S.check(out.ok, 'removal succeeds for a session without reverse mappings')
    got = S.call(si.get_state, k1)
    S.check(not got.ok and got.exc is KeyError, 'the session is gone')
    S.check(S.unchanged_except(before, si._db, [k1]), 'nothing else is touched')
    S.cover('done')


@contract('C03', targets=REMOVE)
def remove_bound(S):
    """a session with one or two bindings, next to another session with one"""
    si = StateInterface()
    si._db = InMemoryStateDataBase() if S.flag('db class') else {}
    k1 = session_key(S, 'key1')
    k2 = session_key(S, 'key2')
    S.assume(k1 != k2)
    iss2 = S.str('iss2')
    empty = S.snapshot(si._db)
    # the other session
    si.create_state(iss2, k2)
    kind3 = S.choice('kind3', 'nonce', 'subject')
    v3 = S.str('value3')
    bind(S, si, kind3, v3, k2)
    expected = S.snapshot(si._db)
    # the session that goes
    si.create_state(S.str('iss1'), k1)
    kind1 = S.choice('kind1', 'nonce', 'sid')
    kind2 = S.choice('kind2', 'subject', 'logout')
    v1 = S.str('value1')
    v2 = S.str('value2')
    S.assume(kind1 != kind3 or v1 != v3)
    S.assume(kind2 != kind3 or v2 != v3)
    bind(S, si, kind1, v1, k1)
    bind(S, si, kind2, v2, k1)
    out = S.call(si.remove_state, k1)
    S.check(out.ok, 'removal succeeds')
    got = S.call(si.get_state, k1)
    S.check(not got.ok and got.exc is KeyError, 'the session is gone')
    S.check(found(find(S, si, kind1, v1)) is None, 'its first reverse mapping is gone')
    S.check(found(find(S, si, kind2, v2)) is None, 'its second reverse mapping is gone')
    S.check(S.call(si.get_iss, k2).value == iss2, 'the other session survives')
    S.check(found(find(S, si, kind3, v3)) == k2, 'the other session keeps its reverse mapping')
    S.check(S.same(expected, si._db), 'nothing of the removed session is left behind')
    S.cover('done')


@contract('C03', targets=REMOVE)
def remove_several(S):
    """a session to which up to three values of one kind have been bound"""
    si = StateInterface()
    si._db = InMemoryStateDataBase() if S.flag('db class') else {}
    k1 = session_key(S, 'key1')
    k2 = session_key(S, 'key2')
    S.assume(k1 != k2)
    si.create_state(S.str('iss2'), k2)
    kind = S.choice('kind', *KINDS)
    other = S.str('other')
    bind(S, si, kind, other, k2)
    expected = S.snapshot(si._db)
    si.create_state(S.str('iss1'), k1)
    values = [S.str('value1'), S.str('value2')]
    if S.flag('again'):
        values.append(S.choice('third', 'first', 'new'))
        values[2] = values[0] if values[2] == 'first' else S.str('value3')
    for v in values:
        S.assume(v != other)
        bind(S, si, kind, v, k1)
    for v in values:
        S.check(found(find(S, si, kind, v)) == k1, 'each of the values leads to the session')
    out = S.call(si.remove_state, k1)
    S.check(out.ok, 'removal succeeds')
    for v in values:
        S.check(found(find(S, si, kind, v)) is None, 'every value bound to it leads nowhere')
    S.check(found(find(S, si, kind, other)) == k2, 'the other session keeps its reverse mapping')
    S.check(S.same(expected, si._db), 'nothing of the removed session is left behind')
    S.cover('done')


@contract('C03', targets=REMOVE)
def remove_rebound(S):
    """a value bound to the session and later to another one"""
    si = StateInterface()
    k1 = session_key(S, 'key1')
    k2 = session_key(S, 'key2')
    S.assume(k1 != k2)
    si.create_state(S.str('iss1'), k1)
    iss2 = S.str('iss2')
    si.create_state(iss2, k2)
    kind = S.choice('kind', *KINDS)
    v = S.str('value')
    bind(S, si, kind, v, k1)
    bind(S, si, kind, v, k2)
    out = S.call(si.remove_state, k1)
    S.check(out.ok, 'removal succeeds')
    S.check(found(find(S, si, kind, v)) == k2, 'a value since bound to another session still leads there')
    S.check(S.call(si.get_iss, k2).value == iss2, 'the other session survives')
    out2 = S.call(si.remove_state, k2)
    S.check(out2.ok and found(find(S, si, kind, v)) is None, 'removing the other session ends the binding')
    S.check(not S.call(si.get_state, k2).ok, 'the other session is gone')
    S.cover('done')


@contract('C03', targets=REMOVE)
def remove_and_reuse(S):
    """a session key used again starts clean"""
    si = StateInterface()
    k1 = session_key(S, 'key1')
    iss = S.str('iss2')
    si.create_state(S.str('iss1'), k1)
    kind = S.choice('kind', *KINDS)
    v = S.str('value')
    bind(S, si, kind, v, k1)
    si.store_item(Message(access_token=S.str('at')), 'token_response', k1)
    if S.flag('read before'):
        S.call(si.get_item, Message, 'token_response', k1)
        S.call(si.get_iss, k1)
        find(S, si, kind, v)
    out = S.call(si.remove_state, k1)
    S.check(out.ok, 'removal succeeds')
    if S.flag('read when it is gone'):
        S.check(not S.call(si.get_iss, k1).ok and not S.call(si.get_item, Message, 'token_response', k1).ok,
                'nothing of a session that is gone can be read')
    si.create_state(iss, k1)
    got = S.call(si.get_item, Message, 'token_response', k1)
    S.check(not got.ok and got.exc is KeyError, 'tokens of the removed session are not visible')
    S.check(si.get_iss(k1) == iss, 'the new session has its own issuer')
    S.check(found(find(S, si, kind, v)) is None, 'bindings of the removed session are not visible')
    S.cover('done')


@contract('C03', targets=REMOVE)
def remove_unknown(S):
    si = interface(S)
    k = session_key(S, 'key')
    S.assume(k not in si._db)
    before = S.snapshot(si._db)
    out = S.call(si.remove_state, k)
    S.check(not out.ok and out.exc is KeyError, 'removing an unknown session raises KeyError')
    S.check(S.unchanged_except(before, si._db), 'and changes nothing')
    S.cover('done')
