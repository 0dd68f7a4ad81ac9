"""Bounded: long histories drawn at random and executed natively, next to a reference that says what the properties
say.  They complement the contracts, which start from a store as it is built in the contract: nothing kept anywhere
else may show after any number of operations."""
from dv.api import contract

from contracts.c02_reverse import KINDS, bind, find, found

from oidcmsg.message import Message
from oidcrp.state_interface import InMemoryStateDataBase
from oidcrp.state_interface import StateInterface

SI = 'oidcrp.state_interface.StateInterface.'
STORE = [SI + n for n in ('create_state', 'store_item', 'get_item', 'get_iss', 'get_state', 'store_x2state',
                          'get_state_by_x', 'remove_state', 'multiple_extend_request_args', 'extend_request_args')]
BOUND = 'native executions of histories of 24 operations on 3 sessions, drawn at random'

SESSIONS = ('k1', 'k2', 'session-3')
ISSUERS = ('https://a', 'https://b')
ITEMS = ('auth_request', 'auth_response', 'token_response', 'refresh_token_response', 'user_info', 'pkce')
NAMES = ('access_token', 'id_token', 'nonce', 'p')
VALUES = ('x', 'y', 'k1', 'z z')


class Reference:
    """what the properties say about a history"""

    def __init__(self):
        self.sessions = {}
        self.bound = {}

    def create(self, key, iss):
        self.sessions[key] = {'iss': iss}

    def remove(self, key):
        del self.sessions[key]
        for what in [w for w in self.bound if self.bound[w] == key]:
            del self.bound[what]

    def extended(self, key, names, kinds):
        res = {}
        for kind in kinds:
            for n in names:
                if n in self.sessions[key].get(kind, {}):
                    res[n] = self.sessions[key][kind][n]
        return res


def observe(S, si, ref, aspect):
    for key in SESSIONS:
        there = ref.sessions.get(key)
        iss = S.call(si.get_iss, key)
        if there is None:
            if aspect == 'C03':
                S.check(not iss.ok and iss.exc is KeyError, 'nothing of a session that is not there can be read')
                for kind in ITEMS:
                    S.check(not S.call(si.get_item, Message, kind, key).ok,
                            'nothing of a session that is not there can be read')
            continue
        if aspect == 'C02':
            continue
        S.check(iss.ok and iss.value == there['iss'], 'the issuer is the one the session was created for')
        for kind in ITEMS:
            got = S.call(si.get_item, Message, kind, key)
            S.check(got.ok == (kind in there), 'there is exactly what was stored')
            if got.ok and kind in there:
                S.check(got.value.to_dict() == there[kind], 'what is read is what was stored last')
        kinds = ['auth_response', 'token_response', 'refresh_token_response']
        got = S.call(si.multiple_extend_request_args, {}, key, list(NAMES), kinds)
        S.check(got.ok and got.value == ref.extended(key, NAMES, kinds), 'what is filled in is what was stored last')
    if aspect != 'C01':
        for kind in KINDS:
            for v in VALUES:
                S.check(found(find(S, si, kind, v)) == ref.bound.get((kind, v)),
                        'a value leads to the session it was last bound to, if that is still there')


def history(S, aspect):
    si = StateInterface()
    if S.flag('db class'):
        si._db = InMemoryStateDataBase()
    ref = Reference()
    often = S.flag('looked at often')
    removing = aspect != 'C01' or S.flag('removing')
    for i in range(24):
        op = S.choice('op%d' % i, 'create', 'store', 'store', 'bind', 'bind', 'remove', 'look')
        key = S.choice('key%d' % i, *SESSIONS)
        if key not in ref.sessions or op == 'create':
            iss = S.choice('iss%d' % i, *ISSUERS)
            S.check(S.call(si.create_state, iss, key).ok, 'a session is created')
            ref.create(key, iss)
        if op == 'store':
            kind = S.choice('kind%d' % i, *ITEMS)
            item = {}
            for n in NAMES:
                if S.flag(n + '%d' % i):
                    item[n] = S.choice('v' + n + '%d' % i, *VALUES)
            S.check(S.call(si.store_item, Message(**item), kind, key).ok, 'an item is stored')
            ref.sessions[key][kind] = dict(item)
        elif op == 'bind':
            kind, value = S.choice('x%d' % i, *KINDS), S.choice('value%d' % i, *VALUES)
            S.check(bind(S, si, kind, value, key).ok, 'a value is bound')
            ref.bound[(kind, value)] = key
        elif op == 'remove' and removing:
            S.check(S.call(si.remove_state, key).ok, 'a session is removed')
            ref.remove(key)
        elif op == 'look' or often:
            observe(S, si, ref, aspect)
    observe(S, si, ref, aspect)
    S.cover('done')


@contract('C01', targets=STORE, kind='concrete', bounded=BOUND)
def stored(S):
    """any history: what is stored"""
    history(S, 'C01')


@contract('C02', targets=STORE, kind='concrete', bounded=BOUND)
def bindings(S):
    """any history: where bound values lead"""
    history(S, 'C02')


@contract('C03', targets=STORE, kind='concrete', bounded=BOUND)
def removals(S):
    """any history: what is left"""
    history(S, 'C03')
