"""C01-C03: session store."""
from dv.api import contract

from oidcmsg.message import Message
from oidcmsg.oidc import verified_claim_name
from oidcrp.state_interface import InMemoryStateDataBase
from oidcrp.state_interface import StateInterface

SI = 'oidcrp.state_interface.StateInterface.'
ITEMS = ('auth_request', 'auth_response', 'token_response', 'refresh_token_request',
         'refresh_token_response', 'user_info', 'pkce')
RESERVED = ('__', '::', '..', '==', 'ref')


def state_key(S, name):
    """a session key as the library makes them (not of a reserved form)"""
    k = S.str(name)
    S.assume(not k.startswith('__'))
    return k


def interface(S):
    si = StateInterface()
    si._db = S.open_dict('db')
    return si


def two_sessions(S):
    si = interface(S)
    k1 = state_key(S, 'key1')
    k2 = state_key(S, 'key2')
    S.assume(k1 != k2)
    iss1 = S.str('iss1')
    iss2 = S.str('iss2')
    si.create_state(iss1, k1)
    si.create_state(iss2, k2)
    return si, k1, k2, iss1, iss2


@contract('C01', targets=[SI + 'create_state', SI + 'get_iss', SI + 'get_state'])
def create_fresh(S):
    si = interface(S)
    iss = S.str('iss')
    before = S.snapshot(si._db)
    out = S.call(si.create_state, iss)
    S.check(out.ok, 'create_state returns')
    key = out.value
    S.check(S.is_random(key), 'the session key comes from the random source')
    got = S.call(si.get_iss, key)
    S.check(got.ok and got.value == iss, 'the issuer stored is the issuer returned')
    S.check(S.unchanged_except(before, si._db, [key]), 'create_state touches no other entry')
    S.cover('done')


@contract('C01', targets=[SI + 'create_state', SI + 'get_iss', SI + 'get_state'])
def create_named(S):
    si = interface(S)
    iss = S.str('iss')
    key = S.str('key')
    before = S.snapshot(si._db)
    out = S.call(si.create_state, iss, key)
    if key.startswith('__') and key.endswith('__'):
        S.check(not out.ok and issubclass(out.exc, ValueError), 'a key of the nonce form is refused')
        S.check(S.unchanged_except(before, si._db), 'a refused key leaves the store unchanged')
        S.cover('refused')
    else:
        S.check(out.ok and out.value == key, 'create_state returns the given key')
        got = S.call(si.get_iss, key)
        S.check(got.ok and got.value == iss, 'the issuer stored is the issuer returned')
        S.check(S.unchanged_except(before, si._db, [key]), 'create_state touches no other entry')
        S.cover('created')


@contract('C01', targets=[SI + 'get_state', SI + 'get_iss', SI + 'get_item'])
def unknown_session(S):
    si = interface(S)
    key = S.str('key')
    S.assume(key not in si._db)
    before = S.snapshot(si._db)
    a = S.call(si.get_state, key)
    b = S.call(si.get_iss, key)
    c = S.call(si.get_item, Message, S.choice('item', *ITEMS), key)
    S.check(not a.ok and a.exc is KeyError, 'unknown session: get_state raises KeyError')
    S.check(not b.ok and b.exc is KeyError, 'unknown session: get_iss raises KeyError')
    S.check(not c.ok and c.exc is KeyError, 'unknown session: get_item raises KeyError')
    S.check(S.unchanged_except(before, si._db), 'a failed lookup changes nothing')
    S.cover('done')


def a_message(S, name):
    """a message with one arbitrary parameter and one optional fixed one"""
    k = S.str(name + '_param', no='#')
    S.assume(k != 'self')            # names the Message constructor reserves
    S.assume(k != 'set_defaults')
    v = S.str(name + '_value')
    return k, v


@contract('C01', targets=[SI + 'store_item', SI + 'get_item', SI + 'get_state', SI + 'get_iss'])
def store_then_get(S):
    si, k1, k2, iss1, iss2 = two_sessions(S)
    typ = S.choice('typ', *ITEMS)
    other_typ = S.choice('other_typ', 'auth_request', 'token_response')
    S.assume(typ != other_typ)
    si.store_item(Message(kept=S.str('kept')), other_typ, k1)
    si.store_item(Message(kept=S.str('kept2')), typ, k2)
    p, v = a_message(S, 'new')
    kept1 = si.get_item(Message, other_typ, k1)['kept']
    kept2 = si.get_item(Message, typ, k2)['kept']
    before = S.snapshot(si._db)
    msg = Message(**{p: v})
    if S.flag('as_json'):
        out = S.call(si.store_item, msg.to_json(), typ, k1)
    else:
        out = S.call(si.store_item, msg, typ, k1)
    S.check(out.ok, 'store_item returns')
    got = S.call(si.get_item, Message, typ, k1)
    S.check(got.ok, 'the stored item can be read')
    S.check(got.value.to_dict() == {p: v}, 'what is read is what was stored')
    S.check(si.get_item(Message, other_typ, k1).to_dict() == {'kept': kept1},
            'other items of the session are unchanged')
    S.check(si.get_item(Message, typ, k2).to_dict() == {'kept': kept2},
            'items of other sessions are unchanged')
    S.check(si.get_iss(k1) == iss1 and si.get_iss(k2) == iss2, 'issuers are unchanged')
    S.check(S.unchanged_except(before, si._db, [k1]), 'store_item touches only its session')
    S.cover('done')


@contract('C01', targets=[SI + 'store_item', SI + 'get_item'])
def overwrite(S):
    """the last value stored is the one read"""
    si, k1, k2, iss1, iss2 = two_sessions(S)
    typ = S.choice('typ', *ITEMS)
    p1, v1 = a_message(S, 'first')
    p2, v2 = a_message(S, 'second')
    si.store_item(Message(**{p1: v1}), typ, k1)
    si.store_item(Message(**{p2: v2}), typ, k1)
    S.check(si.get_item(Message, typ, k1).to_dict() == {p2: v2}, 'the last stored item is read')
    S.check(si.get_iss(k1) == iss1, 'the issuer survives an overwrite')
    S.cover('done')


@contract('C01', targets=[SI + 'get_item'])
def missing_item(S):
    si, k1, k2, iss1, iss2 = two_sessions(S)
    typ = S.choice('typ', *ITEMS)
    si.store_item(Message(a=S.str('a')), typ, k2)
    out = S.call(si.get_item, Message, typ, k1)
    S.check(not out.ok and out.exc is KeyError,
            'an item stored for another session only is absent (KeyError)')
    S.cover('done')


@contract('C01', targets=[SI + 'extend_request_args'])
def extend_args(S):
    si, k1, k2, iss1, iss2 = two_sessions(S)
    typ = S.choice('typ', 'auth_request', 'auth_response', 'token_response', 'pkce')
    p = S.choice('p', 'code', 'state', 'id_token', 'scope2')
    vp = verified_claim_name(p)
    item = S.record('item', {'other': S.str('o')}, {p: S.str('pv'), vp: S.str('vpv')})
    args = S.record('args', {}, {p: S.str('oldp'), 'keep': S.str('keepv')})
    before_args = S.snapshot(args)
    si.store_item(Message(**item), typ, k1)
    si.store_item(Message(**{p: S.str('alien')}), typ, k2)
    db = S.snapshot(si._db)
    orig = S.flag('orig')
    out = S.call(si.extend_request_args, args, Message, typ, k1, [p, 'absent'], orig)
    S.check(out.ok and out.value is args, 'extend_request_args extends the given arguments')
    if not orig and vp in item:
        expect = item[vp]
    elif p in item:
        expect = item[p]
    else:
        expect = before_args.get(p)
    S.check(args.get(p) == expect, 'the parameter gets the verified value, else the value, else is unchanged')
    S.check(S.unchanged_except(before_args, args, [p]), 'no other argument changes')
    S.check('absent' not in args, 'a parameter the item lacks is not invented')
    S.check(S.unchanged_except(db, si._db), 'reading does not change the store')
    S.cover('done')


@contract('C01', targets=[SI + 'multiple_extend_request_args'])
def extend_args_multiple(S):
    si, k1, k2, iss1, iss2 = two_sessions(S)
    t1 = 'auth_response'
    t2 = S.choice('t2', 'token_response', 'refresh_token_response')
    p = S.choice('p', 'access_token', 'refresh_token')
    i1 = S.record('i1', {'z': S.str('z1')}, {p: S.str('v1')})
    i2 = S.record('i2', {'z': S.str('z2')}, {p: S.str('v2')})
    have1 = S.flag('have1')
    have2 = S.flag('have2')
    if have1:
        si.store_item(Message(**i1), t1, k1)
    if have2:
        si.store_item(Message(**i2), t2, k1)
    si.store_item(Message(**{p: S.str('alien')}), t2, k2)
    args = S.record('args', {}, {p: S.str('oldp'), 'keep': S.str('keepv')})
    before = S.snapshot(args)
    out = S.call(si.multiple_extend_request_args, args, k1, [p], [t1, t2])
    S.check(out.ok and out.value is args, 'the given arguments are extended')
    if have2 and p in i2:
        expect = i2[p]
    elif have1 and p in i1:
        expect = i1[p]
    else:
        expect = before.get(p)
    S.check(args.get(p) == expect, 'the latest item that has the parameter decides')
    S.check(S.unchanged_except(before, args, [p]), 'no other argument changes')
    S.cover('done')


@contract('C01', targets=[SI + 'multiple_extend_request_args'])
def latest_signed_value(S):
    """a value that is kept as it came and verified: both ways of asking, the latest item decides"""
    si, k1, k2, iss1, iss2 = two_sessions(S)
    p = 'id_token'
    vp = verified_claim_name(p)
    kinds = ['auth_response', S.choice('second', 'token_response', 'refresh_token_response')]
    items = []
    for i, typ in enumerate(kinds):
        if S.flag('have%d' % i):
            item = S.record('item%d' % i, {'z': S.str('z%d' % i)}, {p: S.str('v%d' % i), vp: S.str('w%d' % i)})
            si.store_item(Message(**item), typ, k1)
            items.append(item)
    si.store_item(Message(**{p: S.str('alien'), vp: S.str('alien_w')}), kinds[1], k2)
    orig = S.flag('orig')
    args = {p: S.str('oldp'), 'keep': S.str('keepv')}
    before = S.snapshot(args)
    expect = before.get(p)
    for item in items:
        if not orig and vp in item:
            expect = item[vp]
        elif p in item:
            expect = item[p]
    if orig:
        out = S.call(si.multiple_extend_request_args, args, k1, [p], kinds, orig=True)
    else:
        out = S.call(si.multiple_extend_request_args, args, k1, [p], kinds)
    S.check(out.ok and out.value is args, 'the given arguments are extended')
    S.check(args.get(p) == expect, 'the latest item that has the parameter decides, in the form asked for')
    S.check(S.unchanged_except(before, args, [p]), 'no other argument changes')
    S.cover('done')


@contract('C01', targets=[SI + 'multiple_extend_request_args', SI + 'extend_request_args'])
def several_parameters(S):
    """each of the parameters asked for is filled in by itself, whether or not the others are there"""
    si = interface(S)
    si.create_state('https://op', 'k1')
    names = ['p', 'q', 'r']
    there = {}
    for n in names:
        form = S.choice(n, 'not there', 'there', 'verified')
        if form != 'not there':
            there[verified_claim_name(n) if form == 'verified' else n] = S.str(n)
    si.store_item(Message(**there), 'token_response', 'k1')
    old = {'q': S.str('old q'), 'keep': S.str('kept')}
    orig = S.flag('orig')
    expect = dict(old)
    for n in names:
        if not orig and verified_claim_name(n) in there:
            expect[n] = there[verified_claim_name(n)]
        elif n in there:
            expect[n] = there[n]
    if S.flag('one item'):
        out = S.call(si.extend_request_args, dict(old), Message, 'token_response', 'k1', names, orig)
    else:
        out = S.call(si.multiple_extend_request_args, dict(old), 'k1', names,
                     ['auth_response', 'token_response', 'refresh_token_response'], orig)
    S.check(out.ok and out.value == expect, 'every parameter the item has is filled in, nothing else')
    S.cover('done')


@contract('C01', targets=[SI + 'multiple_extend_request_args', SI + 'extend_request_args'])
def extend_unknown(S):
    si = interface(S)
    key = S.str('key')
    S.assume(key not in si._db)
    args = {'keep': S.str('keepv')}
    before = S.snapshot(args)
    a = S.call(si.multiple_extend_request_args, args, key, ['code'], ['auth_response'])
    S.check(not a.ok and a.exc is KeyError, 'unknown session raises KeyError')
    b = S.call(si.extend_request_args, args, Message, 'auth_response', key, ['code'])
    S.check(b.ok, 'extend_request_args tolerates an unknown session')
    S.check(S.same(before, args), 'arguments stay as they were')
    S.cover('done')


def any_value(S, name):
    """every kind of value a parameter may have"""
    kind = S.choice(name + '_kind', 'text', 'number', 'zero', 'truth', 'list', 'nothing in a list',
                    'nested', 'null')
    if kind == 'text':
        return S.str(name)
    if kind == 'number':
        return S.int(name)
    if kind == 'zero':
        return 0
    if kind == 'truth':
        return S.bool(name)
    if kind == 'list':
        return [S.str(name + '_1'), S.str(name + '_2')]
    if kind == 'nothing in a list':
        return []
    if kind == 'nested':
        return {'inner': S.str(name), 'empty': {}}
    return None


@contract('C01', targets=[SI + 'store_item', SI + 'get_item', SI + 'extend_request_args',
                          SI + 'multiple_extend_request_args'])
def values_of_any_kind(S):
    """what comes back is what was stored, also when it is nothing, zero or false"""
    si = interface(S)
    key, other = 'k1', 'k2'
    si.create_state('https://op.example.com', key)
    si.create_state('https://op.example.org', other)
    si.store_item(Message(p=S.str('foreign')), 'token_response', other)
    if S.flag('there_before'):
        si.store_item(Message(p=S.str('before'), gone=S.str('gone')), 'token_response', key)
    value = any_value(S, 'value')
    if S.flag('empty'):
        item = {}
    else:
        item = {S.choice('name', 'p', verified_claim_name('p')): value}
    msg = Message(**item)
    expect = msg.to_dict()
    out = S.call(si.store_item, msg, 'token_response', key)
    S.check(out.ok, 'store_item returns')
    got = S.call(si.get_item, Message, 'token_response', key)
    S.check(got.ok and got.value.to_dict() == expect, 'what is read is what was stored')
    old = S.str('old')
    one = S.call(si.extend_request_args, {'p': old}, Message, 'token_response', key, ['p', 'gone'])
    many = S.call(si.multiple_extend_request_args, {'p': old}, key, ['p', 'gone'],
                  ['auth_response', 'token_response'])
    if expect:
        S.check(one.ok and one.value == {'p': value}, 'the value of the item is the one used')
        S.check(many.ok and many.value == {'p': value}, 'the value of the last item is the one used')
        S.cover('a value')
    else:
        S.check(one.ok and one.value == {'p': old}, 'an item without a value changes nothing')
        S.check(many.ok and many.value == {'p': old}, 'an item without a value changes nothing')
        S.cover('no value')


DB = 'oidcrp.state_interface.InMemoryStateDataBase.'


@contract('C01', targets=[DB + 'set', DB + 'get', DB + 'delete', DB + '__setitem__',
                          DB + '__getitem__', DB + '__delitem__'])
def memory_db(S):
    db = InMemoryStateDataBase()
    db._db = S.open_dict('content')
    k = S.str('k')
    v = S.str('v')
    before = S.snapshot(db._db)
    op = S.choice('op', 'set', 'setitem', 'delete', 'delitem', 'get', 'getitem')
    if op == 'set':
        out = S.call(db.set, k, v)
    elif op == 'setitem':
        out = S.call(db.__setitem__, k, v)
    elif op == 'delete':
        out = S.call(db.delete, k)
    elif op == 'delitem':
        out = S.call(db.__delitem__, k)
    elif op == 'get':
        out = S.call(db.get, k)
    else:
        out = S.call(db.__getitem__, k)
    S.check(out.ok, 'store primitives do not fail')
    if op in ('set', 'setitem'):
        S.check(db.get(k) == v and db[k] == v, 'set then get returns the value')
    elif op in ('delete', 'delitem'):
        S.check(db.get(k) is None and db[k] is None, 'a deleted key reads as absent')
    else:
        S.check(out.value == before.get(k), 'get returns the stored value or None')
        S.check(S.unchanged_except(before, db._db), 'get changes nothing')
    S.check(S.unchanged_except(before, db._db, [k]), 'other keys are untouched')
    S.cover(op)
