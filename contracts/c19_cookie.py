"""C19 cookies: only what this party wrote is read."""
import base64
import hashlib
from http.cookies import SimpleCookie

from cryptography.exceptions import InvalidTag

from dv.api import contract

from contracts.common import make_context  # noqa  (shared preconditions)

from oidcrp import cookie
from oidcrp.cookie import CookieDealer
from oidcrp.cookie import InvalidCookieSign

CK = 'oidcrp.cookie.'


class Morsel:
    def __init__(self, value):
        self.value = value
        self.attrs = {}

    def __setitem__(self, k, v):
        self.attrs[k] = v


class World:
    """the primitives: what was written, what was presented"""

    def __init__(self, S):
        self.S = S
        self.texts = {}
        self.macs = []
        self.boxes = []
        self.presented = None
        self.n = 0

    # ---- the cookie header
    def jar(self, text=None):
        return Cookies(self, text)

    def text(self, name, value):
        """a cookie as a browser sends it"""
        self.n = self.n + 1
        t = 'jar%d' % self.n
        self.texts[t] = {name: value}
        return t

    # ---- HMAC
    def new(self, key, msg=None, digestmod=None):
        return Mac(self, key)

    # ---- AES-GCM
    def aesgcm(self, key):
        return Box(self, key)

    def install(self, S):
        S.patch(cookie, 'SimpleCookie', self.jar)
        S.patch(cookie, 'hmac', self)
        S.patch(cookie, 'AESGCM', self.aesgcm)
        S.patch(cookie, '_expiration', lambda *args, **kw: 'Mon, 01-Jan-2029 00:00:00 GMT')
        S.patch(cookie, 'safe_str_cmp', lambda a, b: a == b)
        S.trust('http.cookies.SimpleCookie: a value that was set and sent is read unchanged under its name')
        S.trust('HMAC: collision free, and nobody makes a tag for other data without the key')
        S.trust('AES-GCM: decrypts exactly what was encrypted with that key, nonce and associated data, else InvalidTag')


class Cookies:
    def __init__(self, w, text):
        self.w = w
        self.m = {}
        if text:
            for name, value in w.texts[text].items():
                self.m[name] = Morsel(value)

    def __setitem__(self, name, value):
        self.m[name] = Morsel(value)

    def __getitem__(self, name):
        return self.m[name]

    def get(self, name):
        return self.m.get(name)

    def output(self):
        for name, mo in self.m.items():
            return 'Set-Cookie: ' + self.w.text(name, mo.value)


class Mac:
    def __init__(self, w, key):
        self.w = w
        self.key = key
        self.data = b''

    def update(self, data):
        self.data = self.data + data

    def hexdigest(self):
        tag = hashlib.sha256(self.key + b'\0' + self.data).hexdigest()
        if self.w.presented is None:
            self.w.macs.append((self.key, self.data))
        elif (self.key, self.data) not in self.w.macs:
            self.w.S.assume(tag != self.w.presented)
        return tag


class Box:
    def __init__(self, w, key):
        self.w = w
        self.key = key

    def encrypt(self, nonce, data, aad):
        ct = self.w.S.str('ciphertext', no=('\0',)).encode() + b'0123456789abcdef'
        self.w.boxes.append((self.key, nonce, ct, aad, data))
        return ct

    def decrypt(self, nonce, ct, aad):
        for box in self.w.boxes:
            if box[0] == self.key and box[1] == nonce and box[2] == ct and box[3] == aad:
                return box[4]
        raise InvalidTag()


class Server:
    def __init__(self, seed, symkey):
        self.seed = seed
        self.symkey = symkey
        self.cookie_name = 'sess'


def dealer(seed, symkey):
    return CookieDealer(Server(seed, symkey))


def refused(out):
    return (out.ok and out.value is None) or (not out.ok and out.exc is InvalidCookieSign)


TARGETS = [CK + 'CookieDealer.create_cookie', CK + 'CookieDealer.get_cookie_value', CK + 'make_cookie',
           CK + 'parse_cookie', CK + 'cookie_parts', CK + 'cookie_signature', CK + 'verify_cookie_signature',
           CK + '_make_hashed_key', CK + 'CookieDealer.init_srv']


def written(S, w, encrypted):
    seed = S.str('seed', no=('\0',))
    symkey = S.str('symkey', no=('\0',)) if encrypted else None
    value = S.str('value', nonempty=False)
    typ = S.str('typ', nonempty=False, no=(':',))
    d = dealer(seed.encode(), symkey)
    now = S.now()
    out = S.call(d.create_cookie, value, typ, 'sess')
    S.check(out.ok and out.value[0] == 'Set-Cookie', 'a cookie is made')
    return d, seed, symkey, value, typ, now, out.value[1]


@contract('C19', targets=TARGETS)
def round_trip(S):
    """every value, type and key, with and without encryption"""
    w = World(S)
    w.install(S)
    encrypted = S.flag('encrypted')
    d, seed, symkey, value, typ, now, text = written(S, w, encrypted)
    w.presented = ''
    back = S.call(dealer(seed.encode(), symkey).get_cookie_value, text, 'sess')
    S.check(back.ok and back.value is not None, 'what was written can be read')
    if back.ok and back.value is not None:
        S.check(back.value[0] == value, 'the value written')
        S.check(back.value[1] == str(int(now)), 'the time written')
        S.check(back.value[2] == typ, 'the type written')
    other = S.call(d.get_cookie_value, text, 'other')
    S.check(other.ok and other.value is None, 'another name is not there')
    S.cover('encrypted' if encrypted else 'signed')


def parts_of(w, encrypted):
    """what is in the cookie that was written"""
    if encrypted:
        key, iv, ct, aad, data = w.boxes[0]
        return [aad.decode(), base64.b64encode(iv).decode(), base64.b64encode(ct[:-16]).decode(),
                base64.b64encode(ct[-16:]).decode()]
    return None


@contract('C19', targets=TARGETS)
def forged_signed(S):
    """any other content, time or tag"""
    w = World(S)
    w.install(S)
    d, seed, symkey, value, typ, now, text = written(S, w, False)
    stamp = str(int(now))
    load = value + '::' + stamp + '::' + typ
    tag = hashlib.sha256(seed.encode() + b'\0' + (load + stamp).encode()).hexdigest()
    a, b, c = load, stamp, tag
    what = S.choice('what', 'nothing', 'content', 'time', 'tag', 'content and time', 'content and tag', 'time and tag', 'all',
                    'key')
    if what in ('content', 'content and time', 'content and tag', 'all'):
        v2, t2, y2 = S.str('other value', nonempty=False), S.str('other time', no=(':', '|')), S.str('other type', no=(':', '|'))
        a = v2 + '::' + t2 + '::' + y2
    if what in ('time', 'content and time', 'time and tag', 'all'):
        b = S.str('time', nonempty=False, no=('|', ':'))
    if what in ('tag', 'content and tag', 'time and tag', 'all'):
        c = S.str('tag', nonempty=False, no=('|',))
        S.assume(c != tag)
    reader = d
    if what == 'key':
        seed2 = S.str('seed2', no=('\0',))
        S.assume(seed2 != seed)
        reader = dealer(seed2.encode(), None)
    w.presented = c
    for t in (a + b, load + stamp):
        # lemma: what lies before and after the last colon is a function of the text
        for i in range(3):
            t = t.rsplit(':', 1)[0]
    out = S.call(reader.get_cookie_value, w.text('sess', a + '|' + b + '|' + c), 'sess')
    if refused(out):
        S.check(what != 'nothing', 'what was written is read')
        S.cover('refused')
    else:
        S.check(out.ok, 'refused as a wrong signature')
        S.check(b == stamp, 'changed content, time, tag or key is refused')
        S.check(a == load, 'changed content, time, tag or key is refused')
        S.check(c == tag and what != 'key', 'changed content, time, tag or key is refused')
        S.check(out.value == (value, stamp, typ), 'what was written is read')
        S.cover('read')


@contract('C19', targets=TARGETS)
def forged_encrypted(S):
    """any other content, time, nonce, tag or key"""
    w = World(S)
    w.install(S)
    d, seed, symkey, value, typ, now, text = written(S, w, True)
    stamp = str(int(now))
    parts = parts_of(w, True)
    what = S.choice('what', 'time', 'nonce', 'content', 'tag', 'key', 'seed', 'nothing')
    other = S.str('other', no=('|', '\0'))
    reader = d
    same = what == 'nothing'
    if what == 'time':
        S.assume(other != parts[0])
        parts[0] = other
    elif what == 'nonce':
        o = base64.b64encode(other.encode()).decode()
        S.assume(o != parts[1])
        parts[1] = o
    elif what == 'content':
        o = base64.b64encode(other.encode()).decode()
        S.assume(o != parts[2])
        parts[2] = o
    elif what == 'tag':
        o = base64.b64encode(other.encode()).decode()
        S.assume(o != parts[3])
        parts[3] = o
    elif what == 'key':
        S.assume(other != symkey)
        reader = dealer(seed.encode(), other)
    elif what == 'seed':
        S.assume(other != seed)
        reader = dealer(other.encode(), symkey)
    out = S.call(reader.get_cookie_value, w.text('sess', '|'.join(parts)), 'sess')
    if same:
        S.check(out.ok and out.value == (value, stamp, typ), 'what was written is read')
        S.cover('same')
    else:
        S.check(refused(out), 'changed content, time, tag or key is refused')
        S.cover('changed')


@contract('C19', targets=TARGETS)
def other_forms(S):
    """a cookie of another form is no cookie"""
    w = World(S)
    w.install(S)
    encrypted = S.flag('encrypted')
    seed = S.str('seed', no=('\0',))
    symkey = S.str('symkey', no=('\0',)) if encrypted else None
    d = dealer(seed.encode(), symkey)
    n = S.choice('parts', 0, 1, 2, 3, 4, 5)
    parts = []
    for i in range(n):
        parts.append(S.str('part%d' % i, no=('|', ':')))
    if n and S.flag('looks like content'):
        parts[0] = parts[0] + '::' + (parts[1] if n > 1 else '12') + '::' + S.str('typ', nonempty=False, no=('|', ':'))
    w.presented = parts[-1] if n else ''
    out = S.call(d.get_cookie_value, w.text('sess', '|'.join(parts)) if n else '', 'sess')
    S.check(not out.ok or out.value is None, 'nothing is read from what was never written')
    none = S.call(d.get_cookie_value, None, 'sess')
    S.check(none.ok and none.value is None, 'no cookie, no value')
    S.cover('done')


@contract('C19', targets=[CK + 'CookieDealer.init_srv'])
def keys_are_set_up(S):
    """an empty key is a configuration error, a missing seed a random one"""
    sym = S.choice('symkey', '', 'key')
    seed = S.choice('seed', None, b'my seed')
    out = S.call(dealer, seed, sym)
    if sym == '':
        S.check(not out.ok and out.exc is cookie.ImproperlyConfigured, 'an empty key is a configuration error')
        S.cover('empty')
    else:
        S.check(out.ok, 'a dealer')
        if seed is None:
            S.check(S.is_random(out.value.srv.seed.decode()), 'the seed is random')
            S.cover('random')
        else:
            S.check(out.value.srv.seed == seed, 'the configured seed')
            S.cover('given')


@contract('C19', targets=[CK + 'safe_str_cmp'], kind='concrete',
          bounded='native executions on pairs of texts: equal, one character changed, shortened, arbitrary')
def comparison(S):
    a = S.str('a', nonempty=False)
    b = S.str('b', nonempty=False)
    how = S.choice('how', 'same', 'other', 'changed', 'longer')
    if how == 'same':
        b = a
    elif how == 'longer':
        b = a + b
    elif how == 'changed' and a:
        i = S.int('i', lo=0, hi=1000) % len(a)
        b = a[:i] + chr(ord(a[i]) ^ (1 << S.int('bit', lo=0, hi=6))) + a[i + 1:]
    out = S.call(cookie.safe_str_cmp, a, b)
    S.check(out.ok and out.value == (a == b), 'equal if and only if all characters are')
    S.cover('done')


@contract('C19', targets=[CK + 'parse_cookie'])
def boundary(S):
    """parse_cookie on its own: moving characters between content and time"""
    w = World(S)
    w.install(S)
    seed = S.str('seed', no=('\0',))
    load = S.str('load', no=('|',))
    now = S.now()
    text = S.call(cookie.make_cookie, 'sess', load, seed.encode())
    S.check(text.ok, 'a cookie is made')
    stamp = str(int(now))
    tag = hashlib.sha256(seed.encode() + b'\0' + (load + stamp).encode()).hexdigest()
    a, b = S.str('content', no=('|',)), S.str('time', no=('|',))
    w.presented = tag
    out = S.call(cookie.parse_cookie, 'sess', seed.encode(), w.text('sess', a + '|' + b + '|' + tag))
    if out.ok and a + b != load + stamp:
        S.check(False, 'other content and time are refused')
    elif out.ok:
        S.check(out.value == (a, b), 'what is in the cookie is read')
        S.check(a == load and b == stamp, 'the border between content and time cannot be moved')
        S.cover('accepted')
    else:
        S.check(out.exc is InvalidCookieSign, 'refused as a wrong signature')
        S.cover('refused')


@contract('C19', targets=TARGETS, kind='concrete',
          bounded='native executions with the real HMAC, AES-GCM and SimpleCookie on random values and manipulations')
def real_primitives(S):
    S.patch(cookie, '_expiration', lambda *args, **kw: 'Mon, 01-Jan-2029 00:00:00 GMT')
    seed = S.str('seed')
    symkey = S.str('symkey') if S.flag('encrypted') else None
    value = S.str('value', nonempty=False)
    typ = S.str('typ', nonempty=False, no=(':',))
    S.assume((value + typ).isprintable())
    d = dealer(seed.encode('latin-1', 'replace') + b'\xff', symkey)
    out = S.call(d.create_cookie, value, typ, 'sess')
    S.check(out.ok, 'a cookie is made')
    text = out.value[1]
    back = S.call(d.get_cookie_value, text, 'sess')
    S.check(back.ok and back.value is not None and back.value[0] == value and back.value[2] == typ,
            'what was written can be read')
    c = SimpleCookie(text)
    raw = c['sess'].value
    i = S.int('i', lo=0, hi=10000) % len(raw)
    ch = chr(ord(raw[i]) ^ (1 << S.int('bit', lo=0, hi=6)))
    S.assume(ch.isprintable())
    bad = raw[:i] + ch + raw[i + 1:]
    c2 = SimpleCookie()
    c2['sess'] = bad
    got = S.call(d.get_cookie_value, c2.output().split(': ', 1)[1], 'sess')
    S.check(not got.ok or got.value is None or got.value == back.value, 'no other value is read')
    S.cover('done')
