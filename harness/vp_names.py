"""
Names and content tokens used in traces, and their encoding.

Names are mapped to ASCII for TLC: characters outside ASCII become spare ASCII
characters (one for one, so that patterns mean the same).
"""

SPARE = {'\u00e4': '^', '\u65e5': '~', '\U0001f600': '`', '\u00e9': '}'}
BACK = dict((v, k) for k, v in SPARE.items())

NAMES = ['a', 'b', 'ab', 'ba', 'A', 'c', 'd', 'a.txt', 'b.txt', 'img.png', '.hid', '.a.swp', '...', '..x',
         'x y', ' lead', 'trail ', '#h', 'a#b', 'a#', '100%', '%20', 'a&b=c', 'n;x', 'k=v', '(p)', '((q))',
         "q'", 'q"', '-dash', '+plus', '@at', 'user@host', 'co:lon', 'a,b', '!x', '[a]', 'a[b', 'a*', '*',
         '{b', '$v', '<x>', '\u00e4', '\u65e5\u65e5', '\U0001f600', 'caf\u00e9', 'a.b.c', 'file', 'memory', 'r', 'rr',
         '__init__.py', '__x', '.git', '.DS_Store', 'x.tmp', 'x.bak', 'CVS', 'CON', 'a.', 'A.TXT', 'lost+found',
         '0', '1', '10', '2', 'tmp', 'Z', '_', 'f', 'n' * 40]
CHAIN = ['k%02d' % _i for _i in range(20)]
OWN = sorted(set(NAMES))
NAMES = sorted(set(NAMES + CHAIN))

PLAIN = ['a', 'b', 'c', 'd', 'ab', 'a.txt', 'b.txt']


def enc(name):
    return ''.join(SPARE.get(c, c) for c in name)


def dec(name):
    return ''.join(BACK.get(c, c) for c in name)


ORD = [enc(n) for n in NAMES]

# content tokens: a prefix-free code
TOKENS = {
    'a': b'a', 'b': b'b\n', 'n': b'\n', 'u': '\u00e4\u65e5'.encode('utf-8'), 'e': '\U0001f600x\n'.encode('utf-8'),
    'z': b'\0', 'r': b'\r\n', 'x': b'\xff\xfe\n\xfd', 's': b' ',
    '95': b'0' + b'k' * 4094, '96': b'1' + b'l' * 4095, '97': b'2' + b'm\n' * 2048,
    '91': b'3' + b'n' * 8190, '92': b'4' + b'o\n' * 4095 + b'O', '93': b'5' + b'p' * 8192,
    '20': b'6' + b'q' * 19999, '65': b'7' + b'\n' * 65536, '7p': b'8' + b'\0' * 70000,
}
BINARY_ONLY = ('z', 'r', 'x', '7p')     # not used in text sessions
TEXT_TOKENS = [t for t in TOKENS if t not in BINARY_ONLY]
SMALL_TOKENS = ['a', 'b', 'n', 'u', 'e', 'z', 'x', 's']
TOKSIZE = dict((k, len(v)) for k, v in TOKENS.items())


def content(tokens):
    return b''.join(TOKENS[t] for t in tokens)


def tokens_of(data):
    res = []
    i = 0
    byfirst = {}
    for k, v in TOKENS.items():
        byfirst.setdefault(v[:1], []).append((k, v))
    while i < len(data):
        for k, v in byfirst.get(data[i:i + 1], ()):
            if data.startswith(v, i):
                res.append(k)
                i += len(v)
                break
        else:
            res.append('?' + data[i:i + 12].hex())
            break
        if len(res) > 3000:
            # nothing that was ever written
            return res[:8] + ['?' + data[i:i + 12].hex()]
    return res


def check_code():
    vals = list(TOKENS.values())
    for a in vals:
        for b in vals:
            assert a is b or not b.startswith(a), (a[:5], b[:5])


check_code()
