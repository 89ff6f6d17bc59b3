"""Random documents and edit histories, as test inputs for the real code.

Nothing in here decides anything: the TLA+ specification is the oracle."""
import random, string

CTRL = ['\t', '\x0c', '\x07', '\x1b', '\x7f', '\x0b', '\x08', '\x01']


def u8(s):
    """A Python string as Latin-1 bytes-in-a-string of its UTF-8 encoding."""
    return s.encode('utf-8', 'surrogatepass').decode('latin1')


UNI = [u8(c) for c in ['é', 'ß', '☃', '😀', '\u00a0', '\u2028', 'Ω', '\ufeff', '\ud7ff', '\ue000', '\U0010ffff', '\u0085']]
NONUTF = ['\xff', '\xc3', '\x80', '\xe2\x98']


class Gen:
    def __init__(self, seed, utf8=False, nasty=0.15):
        self.r = random.Random(seed)
        self.utf8 = utf8
        self.nasty = nasty
        self.crlf = False
        self.mode = ''

    def p(self, x):
        return self.r.random() < x

    def ch(self, *a):
        return self.r.choice(a)

    # ---- scalars -------------------------------------------------------
    def word(self):
        r = self.r
        w = r.choice(['a', 'b', 'foo', 'bar', 'x1', 'hello', 'y', 'no', 'off', 'name', 'v', 'key', 'A', 'Zed', 'longer_identifier'])
        if self.mode == 'long' and self.p(.6):
            return self.stem + r.choice(['a', 'b', 'c'])
        if self.mode == 'near':
            w = r.choice(['name', 'Name', 'NAME', 'nAme', 'name_', 'nam', 'named', 'Nam', 'aname', 'na', 'n', 'N'])
        if self.p(0.2):
            w += r.choice(['-', '_', '.', '/', '@', '%', '1', '!', '?', '$', '&', '*', '|', '>', '\\', '=', '<', '^', ';', '+', '~', '`'])
            w += r.choice(['', 'z', '2', 'q'])
        if self.p(self.nasty / 2):
            w += r.choice(UNI)
        return w

    def number(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return str(r.choice([0, 1, 7, 42, 100, 9999]))
        if k < 0.6:
            b = r.choice([7, 8, 15, 16, 31, 32, 63, 64, 127, 128])
            return str((1 << b) * r.choice([1, -1]) + r.choice([-2, -1, 0, 1, 2]))
        if k < 0.65:
            return str(r.randint(10 ** 38, 10 ** 45)) if self.p(.5) else '-' + str(r.randint(10 ** 38, 10 ** 45))
        if k < 0.9:
            m = r.choice(['1.5', '0.25', '3.', '.5', '10', '1', '00.10', '123.456', '0.1', '9007199254740993'])
            e = r.choice(['', '', 'e3', 'E5', 'e-7', 'E+2', 'e10', 'e308', 'e309', 'e-320', 'e-400', 'e38', 'e39', 'e-45'])
            return r.choice(['', '-']) + m + e
        return r.choice(['007', '-0', '00', '-00.5', '1e5', '-1E-5'])

    def almost_number(self):
        if self.p(.5):
            return ''.join(self.r.choice('0017.eE+--') for _ in range(self.r.randint(1, 8)))
        return self.ch('1.2.3', '1e', '1e+', '-', '.', '-.', '1-2', '1_000', '0x1f', '0o7', '+1', '+.5', '.inf', '-.inf', '.nan', '1e5e5', '1.5.', '--1', '12a', '-a', 'e5', '1 2', '10,5')

    def keyword(self):
        if self.p(.15):
            w = self.ch('null', 'true', 'false', '~', 'yes')
            i = self.r.randint(0, len(w))
            return (w[:i] + self.ch('', '', *'~ nullTRE-.') + w[i + self.r.randint(0, 1):]).strip() or 'e'
        return self.ch('true', 'false', 'null', '~', 'True', 'FALSE', 'NULL', 'Null', 'nUll', 'tRue', 'yes', 'no', 'on', 'off', 'truee', 'nulls', 'falsey', '~a', '~~', 'n')

    def plain(self, flow):
        """A plain scalar; may classify as anything."""
        r = self.r
        k = r.random()
        if k < 0.35:
            s = self.word()
        elif k < 0.5:
            s = ' '.join(self.word() for _ in range(r.randint(2, 4)))
        elif k < 0.7:
            s = self.number()
        elif k < 0.78:
            s = self.almost_number()
        elif k < 0.9:
            s = self.keyword()
        else:
            s = self.word() + r.choice(['"', "'", '#', ' "q"', " 'q'", '  x', '\t x', ' - b', ' -1', '-', ':x', '::b', '\x00z' if not flow else 'z', '\x07']) + r.choice(['', 'e'])
        if not self.utf8 and self.p(self.nasty / 4):
            s += r.choice(NONUTF) + 'x'
        if flow:
            for c in ',:[]{}':
                s = s.replace(c, '')
            s = s.strip(' \t') or 'e'
            if s[0] in '|>':
                s = 'p' + s
        return s

    def rawstr(self, n=6):
        """Contents for a string."""
        r = self.r
        out = []
        for _ in range(r.randint(0, n)):
            k = r.random()
            if k < 0.5:
                out.append(self.word())
            elif k < 0.7:
                out.append(r.choice([' ', '  ', '\n', '\t', ': ', ' #', '#', ',', '-', '- ', '\r', '\r\n']))
            elif k < 0.85:
                out.append(r.choice(list('\'"\\{}[]:,&*!|>%@`?=<~.0123456789')))
            elif k < 0.93:
                out.append(r.choice(UNI))
            elif k < 0.97:
                out.append(r.choice(CTRL))
            else:
                out.append('\x00')
        return ''.join(out)

    def text(self):
        """A string to store (UTF-8)."""
        r = self.r
        k = r.random()
        if k < 0.2:
            return self.word()
        if k < 0.25:
            return self.word() + self.ch("'", '"', "''", '""', "'\"", '\\') + self.word()
        if k < 0.4:
            return self.keyword()
        if k < 0.5:
            return self.number()
        if k < 0.55:
            return self.almost_number()
        if k < 0.6:
            return r.choice(['', ' ', '  ', '-', '- a', '--- ', '---', '-a', '-1x', '.5', '..', 'a: b', ': a', 'a:', ':', '? a', '[a]', '{a: b}', '[', ']', '}', 'a, b', '#', '# c', 'a # c', '&a', '*a', '!t', '|', '>', '| a', '%d', '@a', '`a', '"', "'", '""', "''", '"a"', "it's", 'a"b', "'a", '\\', '\\n', 'a\\', '\n', '\na', 'a\n', 'a\n\nb', ' a', 'a ', 'a\t', '\ta', 'a\rb', '\r', 'a  b', 'http://x', 'a:b', 'a :b', u8('\u00a0'), u8('\u0085x'), u8('a\u2028b'), u8('\ufeff')])
        return self.rawstr()

    def single(self):
        s = self.rawstr(4).replace("'", '').replace('\r', '').replace('\x00', '')
        s = s.replace('\n', ' ') if self.p(0.7) else s
        parts = [s]
        while self.p(0.3):
            parts.append(self.rawstr(2).replace("'", '').replace('\n', '').replace('\r', '').replace('\x00', ''))
        return "'" + "''".join(parts) + "'"

    def double(self, invalid=0.0):
        r = self.r
        out = []
        for _ in range(r.randint(0, 6)):
            k = r.random()
            if k < 0.5:
                out.append(self.rawstr(2).replace('"', '').replace('\\', '').replace('\x00', '').replace('\r', ''))
            elif k < 0.75:
                out.append('\\' + r.choice('n0abtvfre"'))
            elif k < 0.85:
                out.append('\\x%02x' % r.choice([0, 9, 10, 0x41, 0x5c, 0x7f, 0x80, 0xe9, 0xff, r.randint(0, 255)]))
            else:
                c = r.choice([0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x2028, r.randint(0, 0xd7ff)])
                out.append(('\\u%04x' if self.p(.5) else '\\u%04X') % c)
            if self.p(invalid):
                out.append(r.choice(['\\q', '\\xg0', '\\x1', '\\u12g4', '\\ud800', '\\udfff', '\\/', '\\ ', '\\U0001', '\\N', '\\\n']))
        return '"' + ''.join(out) + '"'

    def key(self, flow=False):
        k = self.r.random()
        if k < 0.72:
            w = self.word()
            if self.p(0.1):
                w += ' ' + self.word()
            if flow:
                for c in ',:[]{}':
                    w = w.replace(c, '')
            return w + (self.ch(' ', '  ') if self.p(0.05) else '')
        if k < 0.78:
            s = self.plain(flow).replace(': ', '').replace('\x00', '')
            s = s.strip(' \t') or 'e'
            if s[:1] in '"\'|>[{-' or s.startswith('- '):
                s = 'k' + s
            return s.rstrip(':')
        q = self.single() if self.p(0.5) else self.double()
        q = q.replace('\n', '') + (' ' if self.p(0.1) else '')
        return q

    # ---- whitespace ----------------------------------------------------
    def inl(self, lo=0):
        """Inline spacing."""
        return self.ch(' ' * lo, ' ', '  ', ' ' * (lo + 1)) if self.p(0.3) else ' ' * max(lo, 1) if lo else self.ch('', ' ')

    def flowws(self):
        k = self.r.random()
        if k < 0.55:
            return ''
        if k < 0.85:
            return ' '
        return self.ch('  ', '\n', '\n  ', ' # c\n ', '\t', '\r\n')

    def comment(self):
        return '#' + self.ch('', ' c', ' note: x', '!', ' - a', ' "q', ' [', u8(' é'), '# x')

    def nl(self, ind):
        """A line break with decoration, up to the next line at `ind`."""
        out = ''
        while self.p(0.15):
            k = self.r.random()
            out += '\n' + (self.comment().join([' ' * self.r.randint(0, ind + 2), '']) if k < 0.5 else ' ' * self.r.randint(0, 4) if k < 0.7 else '')
        e = '\r\n' if self.crlf else '\n'
        if self.crlf:
            out = out.replace('\n', '\r\n')
        return out + e + ' ' * ind

    # ---- nodes ---------------------------------------------------------
    def scalar(self, flow):
        k = self.r.random()
        if k < 0.66:
            return self.plain(flow)
        return self.single() if k < 0.83 else self.double()

    def flow(self, d):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        mp = self.p(0.5)
        out = []
        for _ in range(n):
            v = self.flow(d - 1) if d > 0 and self.p(0.25) else self.scalar(True)
            if mp:
                if self.p(0.1):
                    v = ''
                out.append(self.flowws() + self.key(True) + ':' + (self.flowws() or ' ') + v)
            else:
                out.append(self.flowws() + v)
        body = ''
        for i, o in enumerate(out):
            body += o
            if i + 1 < len(out):
                body += (self.flowws() if self.p(0.2) else '') + ','
        if out and self.p(0.15):
            body += (self.flowws() if self.p(0.2) else '') + ','
        body += self.flowws()
        return ('{' + body + '}') if mp else ('[' + body + ']')

    def blockscalar(self, ind):
        r = self.r
        ind += r.choice([1, 2, 2, 2, 4])
        out = r.choice('|>') + r.choice(['', '', '-', '+'])
        if self.p(0.1):
            out += ' ' + self.comment()
        e = '\r\n' if self.crlf else '\n'
        for i in range(r.randint(1, 4)):
            while self.p(0.15):
                out += e + (' ' * r.randint(0, ind) if self.p(0.3) else '')
            line = self.ch(self.word(), self.word() + ' ' + self.word(), '# x', '- a', 'k: v', '"q"', '[', u8('é'), '\\n', "it's")
            out += e + ' ' * (ind + (r.randint(0, 3) if i and self.p(0.2) else 0)) + line + (self.ch(' ', '\t') if self.p(0.08) else '')
        while self.p(0.12):
            out += e
        return out

    def value(self, d, ind, ctx):
        """What follows `:`/`-`/the start of the document.

        `ind` is the indentation of the containing collection (-1: root)."""
        r = self.r
        k = r.random()
        sp = '' if ctx == 'root' else self.ch('  ', ' ', '\t') if self.p(0.07) else ' '
        if d <= 0 or k < 0.35:
            if ctx != 'root' and self.p(0.08):
                return ''
            if self.p(0.12):
                return sp + self.blockscalar(ind)
            s = self.scalar(False)
            if ctx == 'root' and s.startswith('%'):
                s = 'p' + s
            if ctx != 'root' and self.p(0.04):
                return self.nl(ind + 2) + s
            tail = self.ch(' ', '  ', '\t') if self.p(0.05) else ' ' + self.comment() if s[:1] in '"\'' and self.p(0.1) else ''
            return sp + s + tail
        if k < 0.5:
            return sp + self.flow(d - 1) + (' ' + self.comment() if self.p(0.05) else '')
        if k < 0.8:
            return self.blockmap(d, ind, ctx)
        return self.blockseq(d, ind, ctx)

    def lead(self, ind, ctx, mapping):
        """Indentation of a nested block collection and the text before it."""
        r = self.r
        if ctx == 'root':
            i = r.choice([0, 0, 0, 2, 4] if self.p(.9) else [1, 3, 5, 7, 8, 9])
            if i == 0:
                return i, '' if self.p(0.85) else self.nl(0)
            return i, self.nl(i) if self.p(0.8) else ' ' * i
        if ctx == 'map' and self.p(.4 if self.wide else .06):
            # On the line of its key.
            self.wide = False
            w = self.ch(1, 1, 2, 3)
            return self.col + w, ' ' * w
        if ctx == 'map':
            i = ind + r.choice([2, 2, 2, 1, 4] if self.p(.9) else [3, 5, 6, 7, 8, 9]) if mapping or self.p(0.6) else ind
            return i, (' ' + self.comment() if self.p(0.05) else '') + self.nl(i)
        if self.p(0.85):
            w = r.choice([1, 1, 1, 3] if self.p(.95) else [2, 4, 5, 6, 7])
            return ind + 1 + w, ' ' * w
        i = ind + r.choice([2, 2, 4])
        return i, self.nl(i)

    def size(self):
        k = self.r.random()
        return self.ch(1, 1, 2, 2, 3, 4) if k < .955 else self.r.randint(9, 12) if k < .996 else self.r.randint(17, 36)

    def blockmap(self, d, ind, ctx):
        r = self.r
        i, out = self.lead(ind, ctx, True)
        n = self.size()
        keys = []
        for j in range(n):
            if j:
                out += self.nl(i)
            k = self.key()
            if keys and self.p(0.03):
                k = r.choice(keys)
            keys.append(k)
            if j and (k.startswith('- ') or k == '-'):
                k = 'k' + k
            wide = self.p(.04)
            if wide:
                k = self.ch(u8('é'), u8('naïve'), u8('日本'), u8('"ß"'), '\xff', u8('😀 x'), u8('ключ'))
            self.col = i + 1 + sum(not '\x80' <= c < '\xc0' for c in k)
            self.wide = wide
            out += k + ':' + self.value(d - 1, i, 'map')
        return out

    def blockseq(self, d, ind, ctx):
        r = self.r
        i, out = self.lead(ind, ctx, False)
        n = self.size()
        for j in range(n):
            if j:
                out += self.nl(i)
            out += '-' + self.value(d - 1, i, 'seq')
        return out

    def doc(self, d=3):
        self.wide = False
        self.crlf = self.p(0.08)
        k = self.r.random()
        self.mode = 'long' if k < .02 else 'near' if k < .06 else ''
        self.stem = ''.join(self.ch(*'abcdefgh_') for _ in range(self.ch(7, 15, 30, 31, 63, 64, 70, 127, 130, 260)))
        pre = ''
        if self.p(0.08):
            pre = self.ch('---\n', '%YAML 1.2\n---\n', '# c\n---\n', '---\n# d\n', '%TAG ! x\n%YAML 1.2\n---\n', '---\n\n')
        if self.p(0.05):
            pre += self.comment() + '\n'
        body = self.value(d, -1, 'root')
        post = self.ch('', '', '\n', '\n', '\n\n', '\n# end\n', '\n  ', '\n    ', ' ') if self.p(.9) else '\n\t\n'
        return pre + body + post

    def soup(self):
        TOK = ['a', 'b: ', '- ', '-', '\n', '\n  ', '\n    ', ' ', '  ', '#c', '# c', '"', "'", '[', ']', '{', '}', ',', ':', ': ', '|', '>', '|-', '|+', '>-',
               '~', 'null', 'true', '1', '-1', '1.5', '.', 'e', '\\', '\\n', '\\x41', '\\u00e9', '%', '---', '\t', '\r\n', '\0', u8('é'), '\xff',
               '&', '*', '!', '?', 'a: 1\n', 'b: 2\n', '- x\n', 'key:\n', '  k: v\n', '""', "''", '\\ud800', '\\x', '1e', 'e+5', '- - ', '\x0c', '\r', '[]', '{}', '%Y\n', '---\n']
        return ''.join(self.r.choice(TOK) for _ in range(self.r.randint(0, 16)))

    def mutate(self, s):
        """A few random byte edits."""
        r = self.r
        for _ in range(r.randint(1, 3)):
            i = r.randint(0, len(s))
            k = r.random()
            if k < 0.35:
                s = s[:i] + s[i + r.randint(1, 3):]
            elif k < 0.75:
                s = s[:i] + r.choice(list(' \n\t:-[]{},"\'#|>\\%~.0e\r\x00') + ['\xff', '\xc3\xa9', '  ', '---', '\n\n']) + s[i:]
            elif k < 0.85:
                s = s[:i]
            else:
                j = r.randint(0, len(s))
                s = s[:i] + s[min(i, j):max(i, j)] + s[i:]
        return s


def show(t):
    k = t['k']
    if k == 'map':
        return '{' + ', '.join(f'{a!r}: {show(c)}' for a, c in zip(t['ks'], t['c'])) + '}'
    if k == 'seq':
        return '[' + ', '.join(map(show, t['c'])) + ']'
    return {'null': '~'}.get(k, k[0] + repr(t['v']))


INTS = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128']


class Hist:
    """Random edit histories over a tree which is kept in step roughly."""

    def __init__(self, g):
        self.g = g
        self.r = g.r

    def nodes(self, t, p=()):
        out = [(list(p), t)]
        for i, c in enumerate(t['c']):
            out += self.nodes(c, p + (i,))
        return out

    def payload(self, strs=True):
        """A typed value to store: fields of an op, and its leaf."""
        r, g = self.r, self.g
        k = r.random()
        if k < 0.35 and strs:
            v = g.text()
            return {'t': 'str', 'v': v}, ('str', v)
        if k < 0.5:
            v = g.ch('true', 'false')
            return {'t': 'bool', 'v': v}, ('bool', v)
        if k < 0.75:
            t = r.choice(INTS)
            b = int(t[1:])
            lo, hi = (0, (1 << b) - 1) if t[0] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
            v = str(r.choice([lo, hi, 0, 1, 7, r.randint(lo, hi), max(lo, -1)]))
            return {'t': t, 'v': v}, ('num', v)
        if k < 0.85:
            t = g.ch('f32', 'f64')
            return {'t': t, 'v': self.flt(t)}, ('num', '0')
        ls = self.lines()
        return {'t': 'block', 'ls': ls, 'v': g.ch('|', '>'), 'ch': g.ch('', '-', '+')}, ('str', '')

    def flt(self, t):
        r = self.r
        k = r.random()
        if k < .3:
            return r.choice(['0.0', '-0.0', '1.5', '0.1', '-2.25', '1e10', '1e-7', '3.4028235e38', '1e16', '1e15', '123456789012345680', '1.1754944e-38', '1e-45'])
        import struct
        if t == 'f32':
            while True:
                v = struct.unpack('<f', struct.pack('<I', r.getrandbits(32)))[0]
                if v == v and abs(v) != float('inf'):
                    return repr(v)
        while True:
            v = struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
            if v == v and abs(v) != float('inf'):
                return repr(v)

    def lines(self):
        g = self.g
        return [g.ch(g.word(), g.word() + ' ' + g.word(), 'k: v', '# x', '- a', '"q"', u8('é x')) for _ in range(self.r.randint(1, 3))]

    def newkey(self, t):
        g = self.g
        k = self.r.random()
        if t['ks'] and k < 0.2:
            return self.r.choice(t['ks'])
        if t['ks'] and k < 0.27:
            return self.near(t)
        if k < 0.9:
            return g.word() + str(self.r.randint(0, 99))
        return g.text()

    def near(self, t):
        """A key like one which is there."""
        k = self.r.choice(t['ks'])
        k = self.g.ch(k.swapcase(), k + ' ', ' ' + k, k[:-1], k + k[-1:], '"' + k + '"', "'" + k + "'", k[::-1], k[:-1] + 'z', k[1:])
        try:
            k.encode('latin1').decode('utf-8')
        except (UnicodeDecodeError, UnicodeEncodeError):
            return 'absent'
        return k

    def many(self, t):
        """Operations through one handle."""
        g = self.g
        p, n = self.r.choice(self.nodes(t))
        ops = []
        if n['k'] not in ('map', 'seq'):
            while g.p(.3):
                f, _ = self.payload()
                if f['t'] not in ('f32', 'f64'):
                    ops.append({'op': 'set', **f})
        if n['k'] not in ('map', 'seq') or g.p(.1):
            k = g.ch('map', 'seq')
            ops.append({'op': 'mk' + k})
            if n['k'] != k:
                n.update(k=k, v='', ks=[], c=[])
        for _ in range(self.r.randint(1, 6)):
            o = self.op(t, at=(p, n))
            x = o.get('then', o)
            if o['op'] in ('set', 'mkmap', 'mkseq') or o.get('t') in ('f32', 'f64') or x.get('t') in ('f32', 'f64'):
                continue
            ops.append(o)
        return {'op': 'many', 'p': p, 'many': ops, 'via': g.ch('id', 'mut', 'into')}

    def op(self, t, at=None):
        """One operation, with the tree updated in place (approximately)."""
        r, g = self.r, self.g
        p, n = at or r.choice(self.nodes(t))
        if not at and self.g.p(0.4):
            cont = [x for x in self.nodes(t) if x[1]['k'] in ('map', 'seq')]
            if cont:
                p, n = r.choice(cont)
        via = g.ch('id', 'mut', 'into')

        def become(k, v='', ks=None, c=None):
            n.update(k=k, v=v, ks=ks or [], c=c or [])
        k = r.random() * (.7499 if at else 1)
        if n['k'] == 'map' and k < 0.75:
            if k < 0.45:
                key = self.newkey(n)
                leaf = {'k': 'null', 'v': '', 'ks': [], 'c': []}
                if g.p(0.35):
                    o = {'op': 'ins', 't': 'slot', 'k': key}
                    if g.p(0.2):
                        o['sep'] = g.ch(' ', '  ', '   ')
                    o['then'] = self.then(leaf)
                else:
                    f, (lk, lv) = self.payload()
                    o = {'op': 'ins', 'k': key, **f}
                    leaf.update(k=lk, v=lv)
                if key in n['ks']:
                    n['c'][n['ks'].index(key)] = leaf
                else:
                    n['ks'].append(key)
                    n['c'].append(leaf)
            elif k < 0.68:
                key = r.choice(n['ks']) if n['ks'] and g.p(0.85) else self.near(n) if n['ks'] and g.p(.7) else 'absent'
                try:
                    key.encode('latin1').decode('utf-8')
                except UnicodeDecodeError:
                    key = 'absent'
                o = {'op': 'mrem', 'k': key}
                if key in n['ks']:
                    i = n['ks'].index(key)
                    n['ks'] = n['ks'][:i] + n['ks'][i + 1:]
                    n['c'] = n['c'][:i] + n['c'][i + 1:]
            else:
                o = {'op': 'mclr'}
                become('map')
        elif n['k'] == 'seq' and k < 0.75:
            if k < 0.45:
                leaf = {'k': 'null', 'v': '', 'ks': [], 'c': []}
                if g.p(0.35):
                    o = {'op': 'push', 't': 'slot'}
                    if g.p(0.2):
                        o['sep'] = g.ch(' ', '  ', '   ')
                    o['then'] = self.then(leaf)
                else:
                    f, (lk, lv) = self.payload()
                    o = {'op': 'push', **f}
                    leaf.update(k=lk, v=lv)
                n['c'].append(leaf)
            elif k < 0.68:
                i = r.randint(0, len(n['c'])) if g.p(0.2) else max(0, r.randint(0, len(n['c'])) - 1)
                o = {'op': 'srem', 'i': i}
                if i < len(n['c']):
                    del n['c'][i]
            else:
                o = {'op': 'sclr'}
                become('seq')
        else:
            k = r.random()
            if k < 0.12:
                o = {'op': 'mkmap'}
                if n['k'] != 'map':
                    become('map')
            elif k < 0.24:
                o = {'op': 'mkseq'}
                if n['k'] != 'seq':
                    become('seq')
            elif k < 0.34:
                o = {'op': 'set', 't': 'null', 'v': g.ch('kw', 'tilde', 'empty')}
                become('null')
            elif k < 0.44:
                t2 = g.ch('bare', 'single', 'double')
                v = (g.word() if t2 == 'bare' else g.text())
                o = {'op': 'set', 't': t2, 'v': v}
                become('str', v)
            else:
                f, (lk, lv) = self.payload()
                o = {'op': 'set', **f}
                become(lk, lv)
        o['p'] = p
        o['via'] = via
        return o

    def then(self, leaf):
        k = self.r.random()
        if k < 0.25:
            leaf.update(k='map')
            return {'op': 'mkmap'}
        if k < 0.5:
            leaf.update(k='seq')
            return {'op': 'mkseq'}
        if k < 0.9:
            f, (lk, lv) = self.payload()
            leaf.update(k=lk, v=lv)
            return {'op': 'set', **f}
        return {}
