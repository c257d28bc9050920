"""C14: glob returns exactly the matching entries."""
from itertools import product

from ..common import load, require

BOUNDS = {
    'quick': 'all patterns of up to 3 tokens (15 tokens) against a directory with all 258 names of up to 3 characters of a, b, B, ".", "-", "]" (memory), and 20 names with blanks and signs (local, zip, plug-in); 18 patterns with "/" and 29 with blanks and signs',
    'thorough': 'patterns of up to 4 tokens',
}
ASSUMPTIONS = ['Linux: file names are case sensitive', 'an unclosed "[" is not tried']
# with a "/" outside of brackets nothing matches: names have none
SLASHED = ('/', 'a/', '/a', 'd/', '*/', './a', 'd/a', '*/*', '**/a', '**/*', 'd/*', '*/a', '?/', '//', '/*', 'd/../a', './*', 'bB/a')
TOKENS = ('a', 'b', 'B', '.', '*', '?', '[ab]', '[!a]', '[a-b]', '[!a-b]', '[.-]', '[]]', '[!]]', '-', '**')
CHARS = 'abB.-]'
FEW = ('a', 'ab', 'B', '.a', 'a.b', 'a.txt', 'b.txt', ' ', 'a b', '-', 'aa', 'd', ' a', 'a ', '\u00e4', '{a,b}', '~', '$HOME', '#', '%61')
# taken as they are
PLAIN = (' a', 'a ', ' a ', 'a b', ' ', 'a  b', '\u00e4', '{a,b}', '~', '$HOME', '#', '%61', '%', 'a.txt', '!a', '^', '+', 'a|b', '(a)', 'A', 'AB', '.', '..', ' *', '* ', '?b', '[#%]', '[#%]61', '[^a]')


def tok_match(tok, ch):
    if tok == '?':
        return True
    if tok[0] == '[':
        body = tok[1:-1]
        neg = body[:1] == '!'
        if neg:
            body = body[1:]
        ok = False
        i = 0
        while i < len(body):
            if i + 2 < len(body) and body[i + 1] == '-':
                ok = ok or body[i] <= ch <= body[i + 2]
                i += 3
            else:
                ok = ok or body[i] == ch
                i += 1
        return ok != neg
    return tok == ch


def matches(tokens, name):
    if not tokens:
        return name == ''
    if tokens[0] in ('*', '**'):
        return any(matches(tokens[1:], name[i:]) for i in range(len(name) + 1))
    return bool(name) and tok_match(tokens[0], name[0]) and matches(tokens[1:], name[1:])


def patterns(n):
    for k in range(n + 1):
        for t in product(TOKENS, repeat=k):
            yield t


def cases(ctx):
    for b in ('memory', 'local', 'zip', 'mini'):
        for first in TOKENS + (None,):
            yield (b, first)
        yield (b, 'others')


def run(ctx, case):
    ns = load()
    backend, first = case
    ns.REG.cleanup(force=True)
    if backend == 'memory':
        names = [''.join(t) for k in (1, 2, 3) for t in product(CHARS, repeat=k)]
        names = [x for x in names if x not in ('.', '..')]
        d = ns.URI('memory:///glob')
    else:
        names = list(FEW)
        d = ns.URI({'local': ctx.local_root() + '/glob', 'zip': 'zip://((memory:///z.zip))/glob', 'mini': 'mini:///glob'}[backend])
    if backend != 'zip':
        d.mkdir()
    for i, n in enumerate(names):
        if n in ('d', 'bB') and backend != 'zip':
            (d / n).mkdir()
            # what lies deeper is not an entry
            with (d / n / 'a').open('wb'):
                pass
        else:
            with (d / n).open('wb') as f:
                f.write(b'x')
    listed = d.listdir()
    require(sorted(listed) == sorted(names), '%s: listdir' % backend)
    n = (4 if ctx.thorough else 3) if backend == 'memory' else 2
    if first == 'others':
        return others(ctx, backend, d, names)
    if first is None:
        pats = [()]
    else:
        pats = [(first,) + p for p in patterns(n - 1)]
        if not ctx.thorough and backend == 'memory':
            pats = [p for p in pats if len(p) < 3 or sum(len(t) > 1 for t in p) <= 2]
    for p in pats:
        if any(t[0] != '[' and t == ']' for t in p):
            continue
        pat = ''.join(p)
        if '[' in ''.join(t for t in p if t[0] != '['):
            continue
        got = d.glob(pat)
        want = [x for x in names if matches(p, x)]
        g = [x.last() for x in got]
        ctx.count('transitions')
        require(len(g) == len(set(g)), '%s: glob(%r) repeats an entry' % (backend, pat), got=g)
        require(sorted(g) == sorted(want), '%s: glob(%r) is wrong' % (backend, pat), missing=sorted(set(want) - set(g))[:10],
                wrong=sorted(set(g) - set(want))[:10])
        for x in got[:3]:
            require(x == d / x.last() and x.get_connection() is d.get_connection(), '%s: glob(%r) gives %s' % (backend, pat, x))
        ctx.see('states', (backend, pat))
        ctx.count('traces')
    ctx.sample({'backend': backend, 'patterns': [''.join(p) for p in pats[:5]]})


def others(ctx, backend, d, names):
    for pat in SLASHED:
        require(d.glob(pat) == [], '%s: glob(%r) is wrong' % (backend, pat), got=[str(x) for x in d.glob(pat)])
        ctx.see('states', (backend, pat))
        ctx.count('transitions')
    for pat in PLAIN:
        tokens, i = [], 0
        while i < len(pat):
            j = pat.index(']', i) + 1 if pat[i] == '[' else i + 1
            tokens.append(pat[i:j])
            i = j
        want = sorted(x for x in names if matches(tokens, x))
        g = sorted(x.last() for x in d.glob(pat))
        require(g == want, '%s: glob(%r) is wrong' % (backend, pat), expected=want, got=g)
        for x in d.glob(pat):
            require(x == d / x.last(), '%s: glob(%r) gives %s' % (backend, pat, x))
        ctx.see('states', (backend, pat))
        ctx.count('transitions')
    ctx.count('traces')
