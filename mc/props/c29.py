"""C29: generic URI splitting and joining follow RFC 3986."""
import re
from itertools import product

from ..common import load, require

SCHEMES = ('http', 'https', 'ftp', 'file', 'sftp', 'x-1.y', None)
AUTHS = (None, '', 'h', 'h:80', 'u@h', 'u:p@h:1', ':p@h', '@', ':', '((memory:///a.zip))', '((zip://((/o.zip))/i.zip?k=v#f))', '((rec://u@h:1/x?y))')
PATHS = ('', '/', '/p', '/p/q', '/p/', '/a:b@c', '/.', '/../x', '/%20', '/p q', '/\u00e4', '/((x))/y', '/://x', '/a\nb')
ROOTLESS = ('p', 'p/q', 'p:q', './p', '../p', 'u@h')
QUERIES = (None, '', 'k=v', 'a/b', 'a?b', '://', '((', 'k=u:p@h')
FRAGS = (None, '', 'f', 'a/b', 'a?b', 'a#b', '://')
SEGMENTS = ('g', '.', '..', '', 'g.', '..g', '.g', 'g;x=1')
BASES = ('http://a/b/c/d;p?q', 'http://a', 'http://a/', 'http://a?q', 'http://a/b/', 'https://u:p@a:1/b/c#f', 'http://a/b/../c/d', 'ftp://a/b/c;d', 'file:///b/c', 'file:/b/c',
         'http:///b/c', 'x-1.y://a/b//c', 'http://a//b/c')
BOUNDS = {
    'quick': 'the product of %d schemes, %d authorities, %d paths, %d queries and %d fragments; all authorities of up to 6 characters out of "u:@h1"; '
             'references of up to 4 out of %d segments with all kinds of authority, query and fragment against %d bases; all registered parsers with defaults' % (
                 len(SCHEMES), len(AUTHS), len(PATHS) + len(ROOTLESS), len(QUERIES), len(FRAGS), len(SEGMENTS), len(BASES)),
    'thorough': 'authorities of up to 8 characters, references of up to 6 segments',
}
ASSUMPTIONS = ['"#" is special in http and https only, as documented', 'a path without authority does not begin with "//"',
               'references are resolved the non-strict way: a scheme that is that of the base is ignored']


def cases(ctx):
    for s, a in product(SCHEMES, range(len(AUTHS))):
        yield ('split', s, a)
    alphabet = 'u:@h1'
    for first in product(alphabet, repeat=2):
        yield ('auth', ''.join(first))
    for b in range(len(BASES)):
        for seg in range(len(SEGMENTS)):
            yield ('ref', b, seg)
        yield ('ref', b, None)
    for s in range(11):
        yield ('parser', s)


def unsplit(s, a, p, q, f):
    "RFC 3986, 5.3"
    return ((s + ':' if s is not None else '') + ('//' + a if a is not None else '') + p + ('?' + q if q is not None else '')
            + ('#' + f if f is not None else ''))


def run(ctx, case):
    ns = load()
    from abl.vpath.base import uriparse as m
    globals()['do_' + case[0]](ctx, m, *case[1:])


def do_split(ctx, m, s, a):
    a = AUTHS[a]
    if s is None and a is not None and a.startswith('(('):
        return
    for p, q, f in product(PATHS + ROOTLESS, QUERIES, FRAGS):
        if p in ROOTLESS and (a is not None or s is None and ':' in p):
            continue
        if f is not None and s not in ('http', 'https'):
            continue
        if s is None and not a and '://' in p:
            continue
        text = unsplit(s, a, p, q, f)
        got = m.urisplit(text)
        require(tuple(got) == (s, a, p, q, f), 'urisplit is wrong', uri=text, got=got, expected=(s, a, p, q, f))
        back = m.uriunsplit(got)
        require(back == text, 'uriunsplit is not its reverse', uri=text, got=back)
        ctx.count('transitions')
        ctx.see('states', text)
    if s not in ('http', 'https') and s is not None and a != '.':
        # "#" belongs to what it is in
        for p, q in product(('/a#b', '/#', '/a#b#c', '/#/x', '/a\n#b\nc'), QUERIES):
            text = unsplit(s, a, p, q, None)
            got = m.urisplit(text)
            require(tuple(got)[:4] == (s, a, p, q) and not got[4], 'urisplit is wrong', uri=text, got=got, expected=(s, a, p, q))
            require(m.uriunsplit(got) == text, 'uriunsplit is not its reverse', uri=text, got=m.uriunsplit(got))
            ctx.count('transitions')
    if a is None and s is not None:
        # documented for files: '.' in the place of the host
        got = m.urisplit(s + '://./p/q')
        require(tuple(got) == (s, None, './p/q', None, None), 'a relative path is not kept', got=got)
    ctx.count('traces')


def do_auth(ctx, m, first):
    for n in range(0, 7 if ctx.thorough else 5):
        for rest in product('u:@h1', repeat=n):
            text = first + ''.join(rest)
            authority(ctx, m, text)
    if first == 'uu':
        for text in ('', 'u', '@', ':', 'h', '1'):
            authority(ctx, m, text)
        for u, p, h, port in product((None, '', 'u'), (None, '', 'p', 'p:q'), (None, 'h'), (None, '', '1')):
            if p is not None and u is None:
                continue
            text = m.join_authority((u, p, h, port))
            require(m.split_authority(text) == (u, p, h, port), 'split_authority is not the reverse of join_authority', parts=(u, p, h, port), joined=text)
    ctx.count('traces')


def authority(ctx, m, text):
    g = re.match(r'^(?:([^@:]*)(?::([^@]*))?@)?([^:]*)(?::(.*))?$', text)
    want = (g.group(1), g.group(2), g.group(3) or None, g.group(4))
    got = m.split_authority(text)
    require(tuple(got) == want, 'split_authority is wrong', authority=text, got=got, expected=want)
    require(m.join_authority(got) == text, 'join_authority is not its reverse', authority=text, got=m.join_authority(got))
    ctx.count('transitions')
    ctx.see('states', text)


def remove_dots(path):
    "RFC 3986, 5.2.4, step by step"
    inp, out = path, ''
    while inp:
        if inp.startswith('../'):
            inp = inp[3:]
        elif inp.startswith('./'):
            inp = inp[2:]
        elif inp.startswith('/./'):
            inp = inp[2:]
        elif inp == '/.':
            inp = '/'
        elif inp.startswith('/../'):
            inp = inp[3:]
            out = out[:out.rfind('/')] if '/' in out else ''
        elif inp == '/..':
            inp = '/'
            out = out[:out.rfind('/')] if '/' in out else ''
        elif inp in ('.', '..'):
            inp = ''
        else:
            i = inp.find('/', 1)
            if i < 0:
                i = len(inp)
            out, inp = out + inp[:i], inp[i:]
    return out


def resolve(b, r):
    "RFC 3986, 5.2.2"
    bs, ba, bp, bq, bf = b
    rs, ra, rp, rq, rf = r
    if rs is not None and rs != bs:
        return (rs, ra, remove_dots(rp), rq, rf)
    if ra is not None:
        return (bs, ra, remove_dots(rp), rq, rf)
    if rp == '':
        return (bs, ba, bp, rq if rq is not None else bq, rf)
    if rp.startswith('/'):
        p = rp
    elif ba is not None and bp == '':
        p = '/' + rp
    else:
        p = bp[:bp.rfind('/') + 1] + rp
    return (bs, ba, remove_dots(p), rq, rf)


def base_parts(text):
    g = re.match(r'^([^:/?#]+):(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?$', text)
    return g.groups()


def do_ref(ctx, m, b, seg):
    base = BASES[b]
    bp = base_parts(base)
    http = bp[0] in ('http', 'https')
    lead = [(SEGMENTS[seg],)] if seg is not None else [()]
    n = 6 if ctx.thorough else 4
    for k in range(0, n if seg is not None else 1):
        for rest in product(SEGMENTS, repeat=k):
            segs = lead[0] + rest
            for slash in ('', '/'):
                p = slash + '/'.join(segs)
                if seg is None and slash:
                    p = '/'
                short = len(segs) < 3
                for s, a, q, f in product((None, bp[0], 'g'), (None, 'g', 'u:p@g:1', '') if short else (None, 'g'),
                                          (None, '', 'y', 'y/../x') if short else (None, 'y/./x'), (None, '', 's', 's/../x') if short else (None, 's/../x')):
                    if not http and f is not None:
                        continue
                    if a is not None and not p.startswith('/') and p:
                        continue
                    if a is None and p.startswith('//'):
                        continue
                    if s == 'g' and ('.' in segs or '..' in segs or f is not None):
                        continue
                    if s is None and ':' in p.split('/')[0]:
                        continue
                    ref = unsplit(s, a, p, q, f)
                    want = resolve(bp, (s, a, p, q, f))
                    if want[1] is None and want[2].startswith('//'):
                        continue
                    got = m.urljoin(base, ref)
                    require(got == unsplit(*want), 'urljoin is wrong', base=base, reference=ref, got=got, expected=unsplit(*want))
                    ctx.count('transitions')
    ctx.see('states', (base, seg))
    ctx.count('traces')


def do_parser(ctx, m, k):
    known = {'http': (None, None, None, '80', '/', None, None), 'https': (None, None, None, '443', '/', None, None),
             'imap': (None, None, 'localhost', '143', '/', None, None), 'imaps': (None, None, 'localhost', '993', '/', None, None),
             'ftp': ('anonymous', 'anonymous', None, '21', '/', None, None), 'tftp': (None, None, None, '69', '/', None, None),
             'file': (None, None, None, None, '/', None, None), 'telnet': (None, None, None, '23', '/', None, None),
             'other': (None, None, None, None, '/', None, None)}
    names = sorted(known)
    P = m.URIParser()
    if k < len(names):
        s = names[k]
        for user, host, port, path, q, f in product((None, ('u', None), ('u', 'p'), ('u', 'p:q')), (None, 'h', 'h.x'), (None, '1'), ('', '/', '/p', '/p:q/r@s'),
                                                    (None, 'q', 'a/b?c', ''), (None, 'f', 'a/b', '')):
            if f is not None and s not in ('http', 'https'):
                continue
            auth = m.join_authority((user or (None, None)) + (host, port))
            text = unsplit(s, auth, path, q, f)
            for defaults in (None, ('du', 'dp', 'dh', 7, '/d', 'dq', 'df'), (None, None, None, 8, '', None, None)):
                d = known[s] if defaults is None else tuple(str(x) if x else x for x in defaults)
                given = (user or (None, None)) + (host, port, path or None, q, f)
                want = (s,) + tuple(g if g is not None else e for g, e in zip(given, d))
                got = P.parse(text, defaults)
                require(got == want, 'parse is wrong', uri=text, defaults=defaults, got=got, expected=want)
                back = P.unparse(got)
                require(P.parse(back, defaults) == got or f is None and want[7] and s not in ('http', 'https'), 'unparse is not its reverse', uri=text, got=back)
                if None not in given[:6] and (f is not None or s not in ('http', 'https')) and not (want[7] and f is None):
                    require(back == text, 'unparse changes a complete URI', uri=text, got=back)
                ctx.count('transitions')
            require(P.scheme_of(text) == s and P.info_of(text) == text[len(s) + 1:], 'scheme_of or info_of is wrong', uri=text, got=P.info_of(text))
            require(P.parser_for(text) is m.URIParser.Schemes.get(s, m.DefaultURIParser), 'wrong parser', uri=text)
        for path in ('/p', '/p/q:r', '/'):
            text = s + ':' + path
            got = P.parse(text)
            require(got[0] == s and got[5] == path and got[1:3] == known[s][:2], 'parse is wrong without an authority', uri=text, got=got)
            require(P.parse(P.unparse(got)) == got, 'unparse is not its reverse', uri=text)
    elif k == len(names):
        for user, host, q in product(('u', 'u.x', 'u+y'), ('h', 'h.x'), (None, 'subject=x', 'a=b&c=d@e')):
            text = 'mailto:%s@%s%s' % (user, host, '?' + q if q else '')
            got = P.parse(text)
            require(got[:4] == ('mailto', user, host, q) and not got[4], 'parse is wrong', uri=text, got=got)
            require(P.unparse(got) == text, 'unparse is not its reverse', uri=text, got=P.unparse(got))
            ctx.count('transitions')
        for address in product('u@.:/', repeat=4):
            text = 'mailto:' + ''.join(address)
            if '@' not in text or text.startswith('mailto://'):
                continue
            for q in (None, '', 's=@'):
                t = text + ('' if q is None else '?' + q)
                got = P.parse(t)
                require(got[3] == q and P.unparse(got) == t, 'unparse is not its reverse', uri=t, got=P.unparse(got), parts=got)
                require(P.parse(P.unparse(got)) == got, 'parse is not the reverse of unparse', uri=t, parts=got)
                ctx.count('transitions')
    else:
        class Own(m.URLParser):
            _defaults = ('me', None, None, 99, '/own', None, None)
        Q = m.URIParser(extra={'own': Own})
        require(Q.parse('own://h') == ('own', 'me', None, 'h', '99', '/own', None, None), 'a parser of one\'s own is not used')
        require(Q.parser_for('own:x') is Own and Q.parser_for('http:x') is m.HttpURLParser, 'wrong parser')
        require(P.parser_for('own:x') is m.DefaultURIParser, 'a parser of one\'s own is used by others')
        require(m.URIParser(schemes={}).parser_for('http:x') is m.DefaultURIParser, 'schemes are not used')
        require(P.parse('urn:a:b')[5] == 'a:b' and P.unparse(P.parse('urn:a:b')) == 'urn:a:b', 'a URI without authority is changed')
    ctx.count('traces')
    ctx.see('states', ('parser', k))
