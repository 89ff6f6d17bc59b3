"""The cases each property is checked on.

A case is what the harness takes: an input, what to observe, and operations.
What has to hold of the outcome is in spec/Judge.tla alone."""
import itertools, struct
from fractions import Fraction

from gen import Gen, Hist, INTS, UNI, NONUTF, u8, show
import nd


def trees(docs):
    """Documents which parse, with their tree."""
    out = nd.run([{'in': d, 'want': ['tree']} for d in docs])
    return [(d, x['o']['tree']) for d, x in zip(docs, out) if x['r'] == 'ok' and 'tree' in x['o']]


def mixed(g, n):
    """Documents of all sorts, broken ones included."""
    out = []
    for i in range(n):
        k = i % 10
        out.append(g.doc(g.r.randint(0, 3)) if k < 4 else g.soup() if k < 6 else g.mutate(g.doc(2)) if k < 9 else
                   g.ch(g.scalar(False), g.flow(2), g.mutate(g.flow(1))))
    return out


def docs(g, n, d=3):
    return [g.doc(g.r.randint(0, d)) for _ in range(n)]


def uses_block(op):
    if any(map(uses_block, op.get('many', []))):
        return True
    return op.get('t') == 'block' or (op.get('then') or {}).get('t') == 'block'


def blockable(d):
    """Whether block scalars may be stored anywhere in the document.

    KNOWN: what follows the last value on its line becomes part of a block
    stored there, and so do indented comments behind one."""
    rest = d[len(d.rstrip(' \t\n\r\x0c')):]
    return '#' not in d and rest[:1] not in (' ', '\t', '\x0c')


def histories(g, n, lo, hi, want, d=3, keep=None, opf=None, many=0):
    h = Hist(g)
    out = []
    for doc, t in trees(docs(g, n, d)):
        ops = []
        for _ in range(g.r.randint(lo, hi)):
            o = h.many(t) if many and g.p(many) else (opf or h.op)(t)
            if o is not None:
                ops.append(o)
        if keep and not keep(doc, ops):
            continue
        out.append({'in': doc, 'want': want, 'ops': ops})
    return out


MODEL = ['text', 'tree', 'ids']


# ---- behaviours which TLC generates from the specification -------------------
def plain_op(o):
    r = {k: v for k, v in o.items() if k in ('op', 'p', 't', 'v', 'k', 'i', 'ls', 'ch')}
    if o['sep']:
        r['sep'] = o['sep'][0]
    if o['then']:
        r['then'] = plain_op(o['then'][0])
    elif o['t'] == 'slot':
        r['then'] = {}
    return r


def behaviours(seed, n, want, keep=None, few=False):
    """All short histories of small documents: every single operation, and a
    part of all pairs (all of them, and of triples, when there is time)."""
    runs = [(1, 1, 'TRUE')] + ([] if few else [(2, 8, 'FALSE')])
    if n.deep:
        runs = [(2, 3, 'TRUE'), (3, 36, 'FALSE')]
    vias = ['id', 'mut', 'into']
    out = []
    for depth, parts, rich in runs:
        got = nd.explore('MCEdit', {'Depth': depth, 'Part': seed % parts, 'Parts': parts, 'Rich': rich, 'Prop': '"C09"'},
                         ['ReadsBack', 'Emit'], ['Local1'])
        for _, (doc, ops) in sorted(got, key=str):
            ops = [dict(plain_op(o), via=vias[(len(out) + i) % 3]) for i, o in enumerate(ops)]
            if keep and not keep(doc, ops):
                continue
            out.append({'in': doc, 'want': want, 'ops': ops})
    return out


def trees_written(n):
    """Every small tree in every layout."""
    got = nd.explore('MCTree', {'Depth': 3 if n.deep else 2, 'Wide': 'FALSE'}, ['Means', 'Emit'])
    return sorted({t for _, t in got})


def texts(n):
    """Every short text, of which the grammar of the specification makes sense."""
    return sorted({t for _, t in nd.explore('MCText', {'K': 4 if n.deep else 3}, ['Total', 'Ended', 'Emit'])})


def no_late_block(d, ops):
    return blockable(d) or not any(map(uses_block, ops))


class Scale:
    def __init__(self, tier):
        self.k = 1 if tier == 'quick' else 12
        self.deep = tier != 'quick'

    def __call__(self, n):
        return n * self.k


def scope(tokens, k, pre='', post='', lo=0):
    """All sequences of up to k tokens."""
    return [pre + ''.join(x) + post for j in range(lo, k + 1) for x in itertools.product(tokens, repeat=j)]


# ---- C01, C02, C21 -----------------------------------------------------------
def c01(seed, n):
    g = Gen(seed)
    out = mixed(g, n(16000)) + big(g, n(20))
    out += scope(['a', ': ', '- ', '\n', ' ', '[', ']', ',', '#', '"', "'", '{', '}', '|', '~', '\r'], 5 if n.deep else 4)
    out += texts(n)
    return [{'in': d, 'want': ['text', 'disp']} for d in out]


def big(g, n):
    """Long documents, wide and deep."""
    out = []
    for i in range(n):
        k = i % 5
        g.crlf = g.p(.1)
        w = g.r.randint(20, 60)
        if k == 0:
            out.append(''.join(f'{g.word()}{j}: {g.scalar(False)}\n' for j in range(w)))
        elif k == 1:
            out.append(''.join(f'- {g.scalar(False)}\n' for j in range(w)))
        elif k == 2:
            out.append('[' * w + g.word() + ']' * w)
        elif k == 3:
            out.append(''.join(' ' * j + f'k{j}:\n' for j in range(w)) + ' ' * w + g.word() + '\n')
        else:
            out.append('- ' * w + g.word() + g.ch('', '\n'))
    return out


def c02(seed, n):
    g = Gen(seed, nasty=.4)
    out = mixed(g, n(9000))
    for _ in range(n(3000)):
        d = g.doc(2)
        out.append(d[:g.r.randint(0, len(d))])
    for _ in range(n(3000)):
        out.append(''.join(g.ch(*'\'"[]{}:,-#|> \n\\a1\x00\xff') for _ in range(g.r.randint(1, 9))))
    for _ in range(n(500)):
        out.append(''.join(chr(g.r.randint(0, 255)) for _ in range(g.r.randint(0, 24))))
    out += big(g, n(30))
    out += scope(['a', ':', '-', '\n', ' ', '[', ',', '#', '"', "'", '{', '|', '\\', '\0', '\xff'], 5 if n.deep else 3)
    want = ['text', 'disp', 'tree', 'ids', 'views', 'vtext', 'scal', 'ser', 'de', 'dety', 'persist', 'debug']
    return [{'in': d, 'want': want, 'full': True} for d in out]


def c21(seed, n):
    g = Gen(seed)
    out = []
    for i in range(n(24000)):
        k = i % 8
        if k < 3:
            out.append(g.mutate(g.doc(2)))
        elif k < 4:
            out.append(g.soup())
        elif k < 5:
            d = g.flow(2)
            out.append(g.ch('', 'k: ', '- ') + d[:g.r.randint(0, len(d))])
        elif k < 6:
            out.append(g.ch('', 'k: ', '- ', '[', '{a: ') + g.double(.5) + g.ch('', ': 1', ']', '}'))
        elif k < 7:
            out.append(g.doc(1) + g.ch('\n', ' ') + g.ch('x', ']', '}', '- a', 'b', '"q"', '[a]', ': x', ','))
        else:
            out.append(g.mutate(g.flow(2)))
    out += scope(['a', ':', ',', '[', ']', '{', '}', ' '], 6 if n.deep else 4, lo=1) + scope(['a', ': ', '\n', ' ', '- '], 7 if n.deep else 5)
    out += scope(['\\', '"', 'x', 'u', '0', 'd', 'g'], 6 if n.deep else 4, pre='"')
    out += texts(n)
    return [{'in': d, 'want': [], 'full': True} for d in out]


# ---- reading -----------------------------------------------------------------
def c04(seed, n):
    g = Gen(seed)
    out = docs(g, n(14000)) + big(g, n(30)) + trees_written(n)
    k = 7 if n.deep else 5
    out += scope(['k:', '- ', '\n', ' ', 'a', "'b':"], k) + scope(['k:', '-', '\n', '\n  ', ' '], k + 1)
    out += scope(['[', ']', '{', '}', ',', 'a', 'b: '], 6 if n.deep else 5)
    return [{'in': d, 'want': ['tree']} for d in out]


def places(g, s, flow):
    """A document with the scalar at some position."""
    tail = g.ch('', '', '', '\n', ' ', '  \n', ' # c', ' #', '\t', '\r\n', '\n\n', '\n# d\n')
    if flow:
        ws = g.ch('', '', ' ', '\n ', '  ')
        we = g.ch('', '', ' ', '\n ', ' # c\n', '\t')
        return g.ch('', '', 'k: ', '- ', '- k: ', '[') + g.ch(
            '[' + ws + s + we + ']', '[a,' + ws + s + we + ',b]', '[' + ws + s + we + ', ' + s + ']', '{k:' + (ws or ' ') + s + we + '}',
            '{k:' + (ws or ' ') + s + we + ', l: ' + s + '}', '[[' + s + we + ']]', '{k: {l: ' + s + we + '}}', '[' + s + we + ',]')
    sep = g.ch(' ', ' ', ' ', '  ', '\t', '\n    ', ' # c\n    ')
    return g.ch(
        s + tail, g.ch('', ' ', '\n', '# c\n', '---\n') + s + tail, 'k:' + sep + s + tail, '-' + sep + s + tail, '- ' + s + '\n- ' + s + tail,
        'k: ' + s + tail.rstrip(' \t') + g.ch('\n', '\r\n') + 'l: ' + s, 'k:\n  l:' + sep + s + tail, '- - ' + s + tail, '- k: ' + s + '\n  l: x' + tail,
        'k:\n- ' + s + tail + '\nl: 1')


def c05(seed, n):
    g = Gen(seed, nasty=.2)
    out = []
    for i in range(n(15000)):
        k = i % 6
        flow = g.p(.4)
        s = (g.keyword() if k == 0 else g.number() if k == 1 else g.almost_number() if k == 2 else g.plain(flow))
        if k == 3:
            w = g.ch('null', 'true', 'false', '~', 'nul', 'tru', 'fals', 'NULL', 'nullx', '1', '-', '.')
            s = ''.join(c.upper() if g.p(.3) else c for c in w) + g.ch('', '', 'e', '1', '.', '-', ' x', '~')
        if flow and any(c in s for c in ',:[]{}'):
            s = g.word()
        if k == 5:
            out.append(g.doc(1))
        else:
            out.append(places(g, s, flow))
    out += scope(['0', '1', '.', 'e', '-', '+'], 7 if n.deep else 5) + scope(['1', '.', 'e', '-', ' ', '#', ':'], 6 if n.deep else 4, pre='[', post=']')
    out += scope(['~', 'null', 'True', 'fALSE', ' ', '#', 'x', '"'], 5 if n.deep else 3, pre='a: ')
    return [{'in': d, 'want': ['tree', 'scal']} for d in out]


def c06(seed, n):
    g = Gen(seed, nasty=.4)
    out = []
    for i in range(n(13000)):
        s = g.ch(g.single, g.double)()
        if g.p(.1):
            s = s[0] + s[1:-1] * g.r.randint(2, 9) + s[-1]
        k = i % 4
        if k == 0:
            s = s.replace('\n', ' ')
            s += g.ch('', '', ' ', '  ')
            out.append(g.ch(s + ': v', 'a: 1\n' + s + ': 2', '{' + s + ': v}', '{a: b, ' + s + ': v}', '- ' + s + ': v', 'k:\n  ' + s + ':\n    x: y', '{' + s + ': "v"}', s + ': ' + s))
        else:
            out.append(places(g, s, k == 1))
    k = 7 if n.deep else 5
    out += scope(["'", 'a', ' ', ':', '#'], k, pre="'") + scope(['"', 'a', '\\n', '\\"', ' ', ':'], k, pre='"')
    out += [f'"\\x{i:02x}\\u{(i * 257) % 65536:04X}\\u00{i:02x}"' for i in range(256)]
    out += scope(["'", '"', 'a', ',', ' '], k, pre='[', post=']')
    return [{'in': d, 'want': ['tree', 'scal']} for d in out]


def c07(seed, n):
    g = Gen(seed, nasty=.2)
    out = []
    for i in range(n(14000)):
        g.crlf = g.p(.1)
        e = '\r\n' if g.crlf else '\n'
        ind = g.ch(-1, -1, 0, 0, 0, 2, 4)
        if ind < 0:
            b = g.blockscalar(-1 if g.p(.5) else 0)
            out.append(b + g.ch('', '', e, e + e, e + '# c', ' '))
            continue
        pad = ' ' * ind
        first = g.ch('k: ', '- ', 'k:  ', '- k: ', 'k:\n' + pad + ' l: ')
        own = ind + (2 if first == '- k: ' else 1 if '\n' in first else 0)
        b = g.blockscalar(own)
        nxt = g.ch('', '', e, e + e, e + pad + g.ch('n: 1', '- 1', '# c', 'n: |' + e + pad + '  x'), e + e + pad + g.ch('n: 1', '- x'))
        if (first.startswith('- ')) != (nxt.strip()[:1] == '-') and nxt.strip():
            nxt = e
        out.append((e if ind and g.p(.7) else '') + pad + first + b + nxt)
    k = 6 if n.deep else 4
    for m in '|>':
        for ch in ('', '-', '+'):
            out += scope(['\n', ' ', 'a', '#', '\t'], k, pre=m + ch + '\n') + scope(['\n', '  ', ' ', 'a', '- '], k, pre='k: ' + m + ch + '\n', post='\nb: 1')
    return [{'in': d, 'want': ['tree', 'scal', 'text']} for d in out]


# ---- editing -----------------------------------------------------------------
def c03(seed, n):
    g = Gen(seed, utf8=True)
    want = ['text', 'tree', 'ids', 'disp', 'vtext']
    return histories(g, n(2600), 1, 5, want, many=.1) + behaviours(seed, n, want, few=True) + [{'in': d, 'want': want} for d in docs(g, n(2500))]


def c08(seed, n):
    return histories(Gen(seed), n(4500), 1, 6, MODEL) + behaviours(seed, n, MODEL)


def c09(seed, n):
    g = Gen(seed)
    return histories(g, n(9000), 1, 10, ['text', 'tree', 're'], keep=no_late_block, many=.1) + \
        behaviours(seed, n, ['text', 'tree', 're'], no_late_block) + \
        [{'in': d, 'want': ['text', 'tree', 're']} for d in docs(g, n(2000))]


def c10(seed, n):
    return histories(Gen(seed, utf8=True), n(4500), 3, 14, ['tree', 'ids'], many=.15) + behaviours(seed, n, ['tree', 'ids'])


def c11(seed, n):
    g = Gen(seed, utf8=True)
    h = Hist(g)
    out = histories(g, n(3500), 3, 14, ['tree', 'ids'], many=.1) + behaviours(seed, n, ['tree', 'ids'])
    for c in out:
        at = g.r.randint(0, len(c['ops']))
        c['ops'].insert(at, {'op': 'get', 'p': [], 'k': g.word()})
    # Edits which cancel out, again and again.
    for doc, t in trees([g.ch('- 1\n', 'a: 1\n', '[]', '{}', '[a, {b: c}]', '{a: [b], c: d}', '- a\n- b: c\n', 'a:\n- b\nc: d\n', 'x') for _ in range(n(250))]):
        ops, k = [], g.r.randint(2, 8)
        turn = [o for _ in range(g.r.randint(1, 2)) for o in cycle(g, t)]
        while len(ops) + len(turn) < 120 and len(ops) < 44 * len(turn):
            ops += [dict(o, via=g.ch('id', 'mut', 'into')) for o in turn]
        out.append({'in': doc, 'want': ['tree', 'ids'], 'ops': ops})
    return out


def within(g, d):
    """Operations which make something of a value and put things into it."""
    if d == 0:
        return [([], {'op': 'set', 't': 'u8', 'v': '1'})]
    if g.p(.5):
        return [([], {'op': 'mkmap'})] + [o for j in range(g.r.randint(0, 2)) for o in [([], {'op': 'ins', 'k': f'x{j}', 't': 'slot', 'then': {}})] +
                                          [([j] + p, o) for p, o in within(g, d - 1)]]
    return [([], {'op': 'mkseq'})] + [o for j in range(g.r.randint(0, 2)) for o in [([], {'op': 'push', 't': 'slot', 'then': {}})] +
                                      [([j] + p, o) for p, o in within(g, d - 1)]]


def cycle(g, t):
    """Operations after which the document has the shape which it had."""
    def at(p, d=None):
        return [dict(o, p=p + q) for q, o in within(g, g.r.randint(1, 2) if d is None else d)]
    k = len(t['c'])
    if t['k'] == 'map':
        new = {'op': 'ins', 'k': 'fresh key', 't': 'slot', 'then': {}, 'p': []}
        gone = {'op': 'mrem', 'k': 'fresh key', 'p': []}
    elif t['k'] == 'seq':
        new = {'op': 'push', 't': 'slot', 'then': {}, 'p': []}
        gone = {'op': 'srem', 'i': k, 'p': []}
    else:
        return at([]) + [{'op': 'set', 't': 'str', 'v': 'x', 'p': []}]
    how = g.r.random()
    if how < .5 or k == 0 and how < .8:
        return [new] + at([k]) + [gone]
    if how < .65:
        # A collection replaced with something else, in all ways there are.
        end = g.ch({'op': 'set', 't': 'bool', 'v': 'true'}, {'op': 'set', 't': 'null', 'v': 'kw'}, {'op': 'set', 't': 'str', 'v': 'x'}, {'op': 'mkmap'}, {'op': 'mkseq'},
                   {'op': 'set', 't': 'block', 'ls': ['x'], 'v': '|', 'ch': '-'})
        return at([0]) + [dict(end, p=[0])] if k else at([]) + at([])
    if how < .8:
        o = {'op': 'ins', 'k': 'fresh key', 't': 'bool', 'v': 'true', 'p': []} if t['k'] == 'map' else {'op': 'set', 't': 'bool', 'v': 'true', 'p': [k]}
        return [new] + at([k]) + [o, gone]
    return [new] + at([k]) + [{'op': 'mclr' if t['k'] == 'map' else 'sclr', 'p': []}]


def c12(seed, n):
    g = Gen(seed, utf8=True)
    return histories(g, n(4500), 1, 8, MODEL, many=.12) + behaviours(seed, n, MODEL)


def styles(g):
    """Operations which say how a value is spelled."""
    h = Hist(g)

    def styled(t):
        p, node = g.r.choice(h.nodes(t))
        via = g.ch('id', 'mut', 'into')
        k = g.r.random()
        blk = {'t': 'block', 'ls': h.lines(), 'v': g.ch('|', '>'), 'ch': g.ch('', '-', '+')}
        if k < .3 and node['k'] in ('map', 'seq'):
            f = g.ch(blk, blk, {'t': 'slot', 'sep': g.ch(' ', '  ', '    ', '\t', '\n      ', '', '', ' # c\n        ', '\n\n     '), 'then': h.then({})})
            if node['k'] == 'map':
                key = h.newkey(node)
                if key not in node['ks']:
                    node['ks'].append(key)
                    node['c'].append({'k': 'null', 'v': '', 'ks': [], 'c': []})
                return dict(f, op='ins', k=key, p=p, via=via)
            node['c'].append({'k': 'null', 'v': '', 'ks': [], 'c': []})
            return dict(f, op='push', p=p, via=via)
        if k < .5:
            f = blk
        elif k < .65:
            f = {'t': 'null', 'v': g.ch('kw', 'tilde', 'empty')}
        elif k < .9:
            f = {'t': g.ch('single', 'double'), 'v': g.text()}
        elif k < .95:
            f = {'t': 'bare', 'v': g.word()}
        else:
            o = h.op(t)
            return o
        node.update(k='null', v='', ks=[], c=[])
        return dict(f, op='set', p=p, via=via)
    return styled


def c13(seed, n):
    g = Gen(seed, utf8=True, nasty=.3)
    return histories(g, n(4500), 1, 6, MODEL, opf=styles(g)) + behaviours(seed, n, MODEL, few=True)


def c14(seed, n):
    g = Gen(seed, utf8=True, nasty=.4)
    h = Hist(g)

    def strings(t):
        p, node = g.r.choice(h.nodes(t))
        via = g.ch('id', 'mut', 'into')
        v = g.text()
        if node['k'] in ('map', 'seq') and g.p(.6):
            node['c'].append({'k': 'str', 'v': v, 'ks': [], 'c': []})
            f = {'t': 'str', 'v': v} if g.p(.7) else {'t': 'slot', 'then': {'op': 'set', 't': g.ch('str', 'str', 'single', 'double'), 'v': v}}
            if f['t'] == 'slot' and f['then']['t'] == 'single' and any(c in v for c in '\n\r'):
                f['then']['t'] = 'str'
            if node['k'] == 'map':
                key = g.text() if g.p(.7) else h.newkey(node)
                if key in node['ks']:
                    del node['c'][-1]
                else:
                    node['ks'].append(key)
                return dict(f, op='ins', k=key, p=p, via=via)
            return dict(f, op='push', p=p, via=via)
        node.update(k='str', v=v, ks=[], c=[])
        return {'op': 'set', 't': g.ch('str', 'str', 'double'), 'v': v, 'p': p, 'via': via}
    want = ['text', 'tree', 'ids', 're']
    out = histories(g, n(4500), 1, 5, want, opf=strings)
    # Every short string, everywhere.
    parts = 1 if n.deep else 8
    for _, v in nd.explore('MCValue', {'K': 3, 'Part': seed % parts, 'Parts': parts, 'Prop': '"C14"'}, ['ValueBack', 'DoubleBack', 'SingleBack', 'KeyBack', 'Emit']):
        out.append({'in': 'k: x\nl:\n- x\nm: {k: x}\nn: [x]\n', 'want': want, 'ops': [
            {'op': 'set', 't': 'str', 'v': v, 'p': [0]}, {'op': 'set', 't': 'str', 'v': v, 'p': [1, 0]}, {'op': 'set', 't': 'str', 'v': v, 'p': [2, 0]},
            {'op': 'set', 't': 'str', 'v': v, 'p': [3, 0]}, {'op': 'ins', 't': 'str', 'k': v, 'v': v, 'p': []}, {'op': 'ins', 't': 'str', 'k': v, 'v': v, 'p': [2]}]})
    return out


def numerals(g):
    """Operations which store numbers."""
    h = Hist(g)

    def numbers(t):
        p, node = g.r.choice(h.nodes(t))
        via = g.ch('id', 'mut', 'into')
        if g.p(.65):
            ty = g.ch(*INTS)
            b = int(ty[1:])
            lo, hi = (0, (1 << b) - 1) if ty[0] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
            v = str(g.r.choice([lo, hi, lo + 1, hi - 1, 0, 1, 9, 10, 99, 100, hi // 10, hi // 10 + 1, g.r.randint(lo, hi), max(lo, -1)]))
        else:
            ty = g.ch('f32', 'f64')
            v = h.flt(ty)
        f = {'t': ty, 'v': v}
        if node['k'] in ('map', 'seq') and g.p(.6):
            if g.p(.3):
                f = {'t': 'slot', 'then': dict(f, op='set')}
            if node['k'] == 'map':
                key = h.newkey(node)
                if key not in node['ks']:
                    node['ks'].append(key)
                    node['c'].append({'k': 'num', 'v': '0', 'ks': [], 'c': []})
                return dict(f, op='ins', k=key, p=p, via=via)
            node['c'].append({'k': 'num', 'v': '0', 'ks': [], 'c': []})
            return dict(f, op='push', p=p, via=via)
        node.update(k='num', v='0', ks=[], c=[])
        return dict(f, op='set', p=p, via=via)
    return numbers


def c15(seed, n):
    g = Gen(seed)
    want = ['tree', 'scal', 'ser', 'de', 'dety']
    out = [{'in': d, 'want': want} for d in docs(g, n(1200), 2)]
    out += [{'in': places(g, g.number(), g.p(.4)), 'want': want} for _ in range(n(1500))]
    g = Gen(seed + 1, utf8=True)
    out += histories(g, n(700), 1, 3, want, d=1) + histories(g, n(900), 1, 2, want, d=1, opf=numerals(g))
    return out


def c16(seed, n):
    g = Gen(seed)
    out = [{'in': d, 'want': MODEL + ['persist']} for d in docs(g, n(1500))]
    for c in histories(g, n(2200), 0, 6, MODEL, many=.1):
        h = Hist(g)
        ops = c['ops'] + [{'op': 'fork'}, {'op': 'persist', 'd': 1}]
        c['ops'] = ops
        out.append(c)
    # Operations after it, on both.
    res = nd.run([dict(c) for c in out])
    for c, r in zip(out, res):
        if 'ops' in c and r['r'] == 'ok' and len(r['steps']) == len(c['ops']) and 'tree' in r['steps'][-1]['o']:
            t = r['steps'][-1]['o']['tree']
            for _ in range(g.r.randint(0, 4)):
                o = h.op(t)
                c['ops'] += [o, dict(o, d=1, twin=True)]
                if g.p(.2):
                    c['ops'].append({'op': 'persist', 'd': 1})
    return out


def c17(seed, n):
    g = Gen(seed)
    h = Hist(g)
    out = []
    for doc, t in trees(docs(g, n(3000))):
        import copy
        ops, ts = [], [t]
        for _ in range(g.r.randint(3, 9)):
            d = g.r.randint(0, len(ts) - 1)
            if len(ts) == 1 or (len(ts) < 4 and g.p(.2)):
                for _ in range(g.r.randint(0, 2)):
                    ops.append(dict(h.op(ts[d]), d=d))
                ops.append({'op': 'fork', 'd': d})
                ts.append(copy.deepcopy(ts[d]))
                if ts[0] == ts[1] and len(ts) == 2:
                    for _ in range(g.r.randint(0, 2)):
                        o = h.op(ts[0])
                        ts[1] = copy.deepcopy(ts[0])
                        ops += [dict(o), dict(o, d=1, twin=True)]
            else:
                ops.append(dict(h.op(ts[d]), d=d))
        out.append({'in': doc, 'want': MODEL, 'ops': ops})
    return out


def c18(seed, n):
    g = Gen(seed, utf8=True)
    out = []
    for i in range(n(9000)):
        size = g.ch(0, 1, 2, 3, 3, 4, 5, 6, 8, 17)
        kind = i % 4
        keys = [f'k{j}' for j in range(size)]
        if g.p(.15) and size > 1:
            keys[-1] = keys[0]
        d = {0: '[' + ', '.join('abcdefghijklmnopqrstuvw'[:size]) + ']', 1: '{' + ', '.join(k + ': v' for k in keys) + '}',
             2: ''.join(f'- i{j}\n' for j in range(size)), 3: ''.join(f'{k}: v\n' for k in keys)}[kind]
        if size == 0 and kind > 1:
            d = '[]'
        p = []
        if g.p(.3) and kind < 2:
            d, p = '- x\n- ' + d, [1]
        script = [[g.ch('next', 'back', 'nth', 'nthback', 'next', 'back'), g.ch(0, 0, 1, 1, 2, 3, size, size + 1)] for _ in range(g.r.randint(1, 10))]
        out.append({'in': d, 'want': [], 'iter': script, 'p': p})
    # Every sequence of calls.
    for size, script in nd.explore('MCIter', {'Calls': 5 if n.deep else 4, 'Size': 4, 'Prop': '"C18"'}, ['Once', 'Within', 'Left', 'Emit']):
        if n.deep or size > 1 or len(out) % 4 == seed % 4:
            d = '[' + ', '.join('abcd'[:size]) + ']' if len(out) % 2 else '{' + ', '.join(f'{k}: v' for k in 'abcd'[:size]) + '}'
            out.append({'in': d, 'want': [], 'iter': script})
    return out


# ---- numbers -----------------------------------------------------------------
def literal(g):
    k = g.r.random()
    if k < .5:
        return g.number()
    if k < .7:
        v = struct.unpack('<d', struct.pack('<Q', g.r.getrandbits(64)))[0]
        if v == v and abs(v) != float('inf'):
            return repr(v).replace('e+', 'e')
        return '1.0'
    if k < .8:
        v = struct.unpack('<f', struct.pack('<I', g.r.getrandbits(32)))[0]
        if v == v and abs(v) != float('inf'):
            # Half way between two floats, or close to it.
            m = Fraction(v) + Fraction(v) / (1 << 24) * g.ch(0, 1)
            return f'{float(m):.{g.r.randint(1, 30)}e}'
        return '2.5'
    if k < .9:
        return g.ch('', '-') + str(g.r.randint(0, 10 ** g.r.randint(1, 40)))
    return g.ch('', '-') + ''.join(g.ch(*'0123456789') for _ in range(g.r.randint(1, 25))) + '.' + ''.join(g.ch(*'0123456789') for _ in range(g.r.randint(0, 25)))


def c19(seed, n):
    g = Gen(seed, utf8=True)
    out = []
    for _ in range(n(7000)):
        s = literal(g)
        out.append({'in': s, 'want': ['scal'], 'ref': True})
    # Half way between two floats, and next to it.
    for _, ls in nd.explore('MCFloat', {'Wide': 'TRUE' if n.deep else 'FALSE'}, ['Unique', 'Sides', 'Emit']):
        out += [{'in': s, 'want': ['scal'], 'ref': True} for s in ls]
    return out + histories(g, n(1800), 1, 4, MODEL + ['scal', 'rescal'], d=1, opf=numerals(g))


def c20(seed, n):
    g = Gen(seed)
    want = ['tree', 'views', 'scal']
    return [{'in': d, 'want': want} for d in docs(g, n(5000))] + histories(g, n(1500), 1, 6, want) + behaviours(seed, n, want, few=True)


def c22(seed, n):
    g = Gen(seed, nasty=.3)
    want = ['text', 'disp', 'tree', 'ids', 'views', 'vtext', 'scal', 'ser', 'de', 'persist', 'debug']
    return histories(g, n(5000), 2, 14, want, many=.15) + behaviours(seed, n, want)


def c23(seed, n):
    g = Gen(seed, utf8=True)
    h = Hist(g)

    def idle(t):
        if g.p(.3):
            return h.op(t)
        p, node = g.r.choice(h.nodes(t))
        via = g.ch('id', 'mut', 'into')
        k = node['k']
        o = g.ch({'op': 'get', 'k': node['ks'][0] if node['ks'] and g.p(.5) else g.word()}, {'op': 'mrem', 'k': 'absent ' + g.word()},
                 *([{'op': g.ch('get', 'mrem'), 'k': h.near(node)}] if node['ks'] else []),
                 {'op': 'srem', 'i': len(node['c']) + g.ch(0, 1, 7)}, {'op': 'mkmap'} if k == 'map' else {'op': 'mclr'}, {'op': 'mkseq'} if k == 'seq' else {'op': 'sclr'})
        if 'k' in o:
            try:
                o['k'].encode('latin1').decode('utf-8')
            except UnicodeDecodeError:
                o['k'] = 'absent'
        if o['op'] in ('mclr', 'sclr') and k in ('map', 'seq'):
            o = {'op': 'mkmap' if k == 'map' else 'mkseq'}
        return dict(o, p=p, via=via)
    return histories(g, n(4000), 2, 8, MODEL, opf=idle) + behaviours(seed, n, MODEL)


def c24(seed, n):
    g = Gen(seed)
    want = ['text', 'faults']
    return [{'in': d, 'want': want} for d in docs(g, n(4000)) + big(g, n(20))] + histories(g, n(1000), 1, 3, want) + histories(g, n(1000), 1, 2, want, opf=styles(g))


MAKE = {name.upper(): f for name, f in list(globals().items()) if name[:1] == 'c' and name[1:].isdigit()}
