"""The obligations of every property."""
import ast
import copy

from .engine import *
from .spec import *
from .prep import PREP, GROUP, ACT
from .ai import Fn, Bound, Obj, ModV, Cls

CHECKS = {}


def check(pid, technique, rule, note, assumptions=()):
    def deco(fn):
        CHECKS[pid] = dict(fn=fn, technique=technique, rule=rule, note=note, assumptions=list(assumptions),
                           explanation=note + ' ' + rule)
        return fn
    return deco


BASE = ['the models of the interpreter in pyan/lib.py stand for Python, numpy and the operating system',
        'texts are nonempty, free of line breaks, without surrounding blanks and no longer than their documented column',
        'integers fit their documented column; numbers are finite',
        'binary data does not by chance hold the bytes of a tag or a line ending (C30 adds line endings at its end)']


# ------------------------------------------------------------------ helpers
def kw_of(c):
    return {} if c.force_double is None else {'force_double': c.force_double}


def write_case(w, c, d=None, u=None, mode=None):
    u = u or w.uff()
    d = c.make() if d is None else d
    kw = kw_of(c)
    if mode:
        kw['mode'] = mode
    w.write(u, d, **kw)
    return u, d


def need_file(w, path=PATH):
    f = w.file(path)
    if f is None:
        raise Bad('no file', 'nothing is written', None)
    return f


def lookup_known(seg):
    for s in segs_of(seg):
        if isinstance(s, TopSeg):
            raise Undecided('text not known: %s' % s.why)


def content_loc(v, default=None):
    for s in segs_of(v):
        if not isinstance(s, str) and getattr(s, 'loc', None):
            return s.loc
    return default


def diff(exp, got, ip, what, strict=True, only=None):
    bad = []
    if not isinstance(got, dict):
        return [(what + ': result', '%s: one data-set as a dictionary is expected, not %r' % (what, short(got)), None)]
    for k, v in exp.items():
        if only is not None and k not in only:
            continue
        if k not in got:
            bad.append(('%s: %s' % (what, k), '%s: key %r is missing' % (what, k), None))
        elif not same(v, got[k]):
            bad.append(('%s: %s' % (what, k), '%s: key %r is %s, expected %s' % (what, k, short(got[k]), short(v)),
                        ip.prov.get((id(got), k))))
        else:
            r = single(norm(v), norm(got[k]), getattr(exp, 'high', ()))
            if r:
                bad.append(('%s: %s' % (what, k), '%s: key %r: %s loses its precision, it comes as %s' % (what, k, short(r[0]), short(r[1])),
                            ip.prov.get((id(got), k))))
                continue
            r = fraction(v, got[k])
            if r:
                bad.append(('%s: %s' % (what, k), '%s: key %r: the integer %s comes as the real number %s' % (what, k, short(r[0]), short(r[1])),
                            ip.prov.get((id(got), k))))
    return bad


def single(v, g, high):
    """a number that is rounded to single precision though its column holds more"""
    if isinstance(v, dict) and isinstance(g, dict):
        return next((r for k in v if k in g for r in [single(v[k], g[k], high)] if r), None)
    if isinstance(v, list) and isinstance(g, list):
        return next((r for x, y in zip(v, g) for r in [single(x, y, high)] if r), None)
    if isinstance(g, Sym) and isinstance(v, Sym) and g.kind in ('int', 'float', 'complex'):
        for a, b in zip(pair(v), pair(g)):
            if strip_f4(b) != b and strip_f4(a) == a and (v.kind == 'int' or a in high):
                return v, g


def fraction(v, g):
    """an integer of a header, or of a header inside, that comes as a real number"""
    if isinstance(v, dict) and isinstance(g, dict):
        for k in v:
            r = fraction(v[k], g[k]) if k in g else None
            if r:
                return r
    elif isinstance(v, list) and isinstance(g, list) and v and isinstance(v[0], dict):
        for x, y in zip(v, g):
            r = fraction(x, y)
            if r:
                return r
    elif isinstance(v, Sym) and v.kind == 'int' or type(v) is int and v != 0:
        if isinstance(g, Sym) and g.kind == 'float' or type(g) is float:
            return v, g


def short(v, n=160):
    s = repr(norm(v))
    return s if len(s) <= n else s[:n] + '...'


def floor(p):
    return p if p < 12 else 11 if p == 12 else 16


def cell_bad(c, piece, d=False):
    """why the columns do not hold the documented value (None: they do)"""
    segs = segs_of(piece)
    for s in segs:
        if isinstance(s, TopSeg):
            raise Undecided('text not known: %s' % s.why)
    if c.kind == 'X':
        return None if all(isinstance(s, str) and not s.strip() for s in segs) else 'blank columns hold %r' % (segs,)
    if any(isinstance(s, (Part, BPart)) for s in segs):
        return 'a field is cut by the column boundary: %r' % (segs,)
    f = whole(piece)
    v = c.v
    if c.kind in 'IED' and not isinstance(v, str) and segs and isinstance(segs[-1], str) and segs[-1].endswith(' '):
        # a value of the full width would move the fields behind it
        return 'the number is not right-justified: %r' % (segs,)
    if isinstance(v, str):
        if f is not None or not all(isinstance(s, str) for s in segs):
            return 'text %r expected, found %r' % (v, segs)
        return None if ''.join(segs).strip() == v.strip() else 'text %r expected, found %r' % (v, ''.join(segs))
    if isinstance(v, Sym):
        if f is None:
            return '%s expected, found %r' % (v, segs)
        if c.kind == 'S':
            if f.conv != 's' or not f.sym.kind == 'str' or not eqterm(f.sym, v):
                return '%s expected, found %r' % (v, f)
            if f.prec is not None and f.prec < c.w:
                return '%s is cut to %d characters, the column has %d' % (v, f.prec, c.w)
            return None
        if f.sym.kind == 'str' or not eqterm(f.sym, v):
            return '%s expected, found %s' % (v, f.sym)
        if c.kind == 'I':
            if f.conv in 'id' or f.conv == 's' and f.sym.kind == 'int' or f.conv == 'f' and f.prec == 0:
                return None
            return 'integer %s written as %s' % (v, f.fmt())
        if f.conv not in 'eE':
            return 'real %s written as %s' % (v, f.fmt())
        if f.epos.upper() != f.eneg.upper() or f.epos.upper() not in ('E', 'D'):
            return 'the exponent of real %s is written with %r or %r' % (v, f.epos, f.eneg)
        if d and f.epos.upper() != 'D':
            return 'the exponent of real %s is written with %r, documented D' % (v, f.epos)
        if (6 if f.prec is None else f.prec) < floor(c.p):
            return '%s written with %s, documented %s' % (v, f.fmt(), c)
        mx = f.maxlen()
        if mx is not None and mx > c.w:
            return '%s written with %s does not fit %d columns' % (v, f.fmt(), c.w)
        return None
    # constant
    if not all(isinstance(s, str) for s in segs):
        return '%r expected, found %r' % (v, segs)
    t = ''.join(segs).strip()
    try:
        got = float(t.replace('D', 'e').replace('d', 'e'))
    except ValueError:
        return '%r expected, found %r' % (v, t)
    if c.kind == 'I' and not t.lstrip('+-').isdigit():
        return 'integer %r expected, found %r' % (v, t)
    return None if got == v else '%r expected, found %r' % (v, t)


def lines_bad(c, d, f, bo='little'):
    """compares the file with the documented records; yields (key, msg, loc)"""
    what = c.name
    b = is_b(f)
    segs = segs_of(f)
    bad = []
    payload = None
    if c.binary:
        # header: the first 13 lines
        hs, rest, n = [], [], 0
        for s in segs:
            if n < 13 and isinstance(s, str):
                i = 0
                while n < 13:
                    j = s.find('\n', i)
                    if j < 0:
                        break
                    i = j + 1
                    n += 1
                if n >= 13:
                    hs.append(s[:i])
                    rest.append(s[i:])
                else:
                    hs.append(s)
            elif n < 13:
                hs.append(s)
            else:
                rest.append(s)
        payload = [s for s in rest if s != '']
        segs = hs
    lines = ssplitlines(mks(segs, True))
    exp = [[S(6, '    -1')], c.head(d, bo)] + c.body(d)
    if not c.binary:
        exp.append([S(6, '    -1')])
    if len(lines) != len(exp):
        loc = None
        for l in lines[min(len(lines), len(exp)) - 1:]:
            loc = content_loc(l)
            if loc:
                break
        bad.append((what + ': number of records', '%s: %d lines written, %d documented' % (what, len(lines), len(exp)), loc))
    for i, (cells, line) in enumerate(zip(exp, lines)):
        p = 0
        try:
            L = slen(line)
        except Undecided:
            raise
        for j, cell in enumerate(cells):
            a, e = p, p + cell.w
            if j == len(cells) - 1 and cell.kind == 'S':
                e = max(e, L)
            piece = sslice(line, min(a, L), min(e, L))
            why = cell_bad(cell, piece, c.typ == 164)
            if why:
                bad.append(('%s: line %d field %d' % (c.typ, min(i, 14), j + 1),
                            '%s: line %d columns %d-%d (%s): %s' % (what, i + 1, a + 1, a + cell.w, cell, why),
                            content_loc(line)))
            p = e
        if p < L:
            tail = sslice(line, p, L)
            if not all(isinstance(s, str) and not s.strip() for s in segs_of(tail)):
                bad.append(('%s: line %d tail' % (c.typ, min(i, 14)), '%s: line %d: %r behind column %d' % (what, i + 1, tail, p),
                            content_loc(tail) or content_loc(line)))
        if len(bad) > 6:
            break
    if payload is not None:
        end = payload.pop() if payload and isinstance(payload[-1], str) else ''
        words = c.words(d, bo)
        if payload != words:
            bad.append((what + ': payload', '%s: binary words %s, expected %s' % (
                what, [repr(x) for x in payload[:6]], [repr(x) for x in words[:6]]),
                next((x.loc for x in payload if not isinstance(x, str) and getattr(x, 'loc', None)), None)))
        if not end.startswith('    -1') or end[6:].strip(' \r\n') or not end.endswith('\n'):
            bad.append((what + ': end tag', '%s: the end tag must follow the data directly, found %r' % (what, end[:20]), None))
    return bad


def put_block(w, c, d, **kw):
    w.put(c.block(d, **kw))


def read_block(w, c, d, **kw):
    put_block(w, c, d, **kw)
    u = w.uff()
    return u, w.read(u)


def rep(ctx, t, few=3):
    """a few representative shapes of a type"""
    cs = [c for c in spec.cases(t) if getattr(c, 'n', None) != 0]
    if t == 58:
        return [c58(3, 1, 1, 1, 0), c58(5, 0, 0, 1, 0), c58(2, 1, 0, 0, 0, force=False)]
    if t == 55:
        return [c55(2, 2), c55(3, 2, cplx=True), c55(5, 1, six=True)]
    if t == 2414:
        return [c2414f(2, 3), c2414g(1, 1, 2, [3, 3]), c2414g(3, 4, 2, [(1, 2, 3), (2, 4, 6)])]
    if t == 2412:
        return [c2412([(44, [4, 4]), (11, [2])]), c2412([(116, [20])])]
    if t in (2429, 2467):
        return [cgroups(t, (5, 2)), cgroups(t, (0,))]
    if t == 82:
        return [c82(9), c82(3)]
    return cs[:2] if len(cs) > 1 else cs


BIN = [c58(3, 1, 1, 1, 1), c58(2, 0, 0, 0, 1, force=False)]


def all_rep(ctx):
    for t in TYPES:
        for c in rep(ctx, t):
            yield c
    for c in BIN:
        yield c


def LARGE():
    """blocks of more than two buffers of 4096 bytes"""
    return [c15(110), c82(850), c2411(80), c58(450, 0, 1, 1, 0), c58(600, 0, 1, 1, 1), cgroups(2467, (230, 200)),
            c2412([(44, [4] * 100)]), c55(2, 120), c2414g(1, 1, 160, [3] * 160), c2420(40)]


# ============================================================== round trips
def roundtrip(ctx, cases):
    for c in cases:
        def fn(w, c=c):
            u, d = write_case(w, c)
            need_file(w)
            got = w.read(u)
            return diff(c.expect(c.full()), got, w.ip, c.name)
        ctx.ob('write then read: ' + c.name, fn)


def texted(ctx, *types):
    """the same round trip with texts of a particular shape: blanks inside, digits, quotes, nothing, ..."""
    for t in types:
        for c in rep(ctx, t):
            if has_text(c):
                roundtrip(ctx, [worded(c, k) for k in range(0, len(WORDS), 1 if ctx.deep else 2)])
                roundtrip(ctx, [worded(c, 0, ('',))])


def sized(typ, n):
    """cases with n nodes, elements, groups, entities, values, ... of each kind"""
    if typ == 58:
        return [c58(n, cp, ev, db, b, force=bool(db)) for cp, ev, db, b in ((0, 1, 1, 0), (1, 0, 1, 0), (0, 0, 0, 0), (1, 1, 0, 1), (0, 0, 1, 1))]
    if typ == 2412:
        return [c2412([(44, [4] * n)]), c2412([(11, [2] * n)]), c2412([(112, [n])])]
    if typ in (2429, 2467):
        return [cgroups(typ, (n,)), cgroups(typ, (2,) * n)]
    if typ == 55:
        return [c55(2, n), c55(5, n, cplx=True), c55(3, n, six=True)]
    if typ == 2414:
        return [c2414f(n, 3), c2414g(1, 1, n, [3] * n), c2414g(2, 1, n, [3] * n), c2414g(3, 1, n, [(1, 2, 3)] * n)]
    one = {15: c15, 18: c18, 82: c82, 2411: c2411, 2420: c2420}.get(typ)
    return [one(n)] if one else []


def alike(ctx, *types):
    """the round trip with values that are equal to each other"""
    more = {2429: [cgroups(2429, (3, 9)), cgroups(2429, (4, 4))], 2467: [cgroups(2467, (3, 5)), cgroups(2467, (2, 2))],
            2412: [c2412([(44, [4, 4, 4])]), c2412([(11, [2, 2]), (41, [3, 3])]), c2412([(112, [10, 10])])], 82: [c82(9), c82(16)],
            2414: [c2414f(3, 3), c2414g(2, 1, 3, [3, 3, 7]), c2414g(3, 1, 2, [(1, 2, 6), (1, 2, 6)])]}
    for t in types:
        for c in rep(ctx, t) + more.get(t, []) + (BIN if t == 58 else []):
            c = repeated(c)

            def fn(w, c=c):
                u, d = write_case(w, c)
                return lines_bad(c, c.full(), need_file(w)) or diff(c.expect(c.full()), w.read(u), w.ip, c.name)
            ctx.ob('write then read: ' + c.name, fn)


def limits(ctx, *types):
    """sizes beyond every limit that the code states"""
    from .checks2 import index_bad
    for t in types:
        for n in ctx.limits(t):
            for c in sized(t, n):
                def fn(w, c=c):
                    u, d = write_case(w, c)
                    bad = lines_bad(c, c.full(), need_file(w))
                    if bad:
                        return bad
                    e = c.expect(c.full())
                    bad = index_bad(w, u, [(c.typ, int(bool(c.binary)), e)], 'large set')
                    if c.typ == 58:
                        e['x'] = e['data'] = None
                    return bad + diff(e, w.read(u, header_only=True), w.ip, 'header of ' + c.name)
                ctx.ob('beyond the limits in the code: ' + c.name, fn, budget=40000000)


RT = 'value-provenance abstract interpretation of writer composed with reader (format/field domain, trace partitioning)'
RT_RULE = ('For every analysed shape the writer is interpreted over unknown values; the text it produces is a sequence of formatted '
           'fields; the reader is interpreted on that text; every key must come back as the very unknown that went in.')
RT_NOTE = ('All values are unknowns, so each shape stands for every value; shapes are the residue classes of the record period '
           'plus sizes next to every integer constant in the data-set\'s code. Rounding by the documented precision is abstracted.')


PENS = ('0xx', 'x0x', 'xx0', '0xx0', '0xx000', 'xx00xx00', '0x0x0x0x', '0x0x0x0x0', 'xxxxxxxx00000000', 'xxxxxxx0', 'xxxxxxxx0',
        '0', '00', '00000000', '000000000', '0xxxxxxxxxxxxxxx0x', '00xx', '0xx0xx0xx0xx0xx00000')


@check('C03', RT, RT_RULE, RT_NOTE, BASE)
def chk_c03(ctx):
    for t in (15, 18, 82, 2411, 2412, 2420):
        roundtrip(ctx, ctx.cases(t))
    texted(ctx, 15, 18, 82, 2411, 2412, 2420)
    limits(ctx, 15, 18, 82, 2411, 2412, 2420)
    alike(ctx, 15, 18, 82, 2411, 2412, 2420)
    roundtrip(ctx, [c82z(p) for p in PENS])

    def legacy(w):
        # the dictionary the documentation of prepare_2412 writes
        keys = EKEYS + ('nodes_nums',)
        e = {k: [atom('int', k, i) for i in range(2)] for k in keys}
        e.update(fe_descriptor=[44, 44], num_nodes=[4, 4], nodes_nums=[[atom('int', 'nodes_nums', i, j) for j in range(4)] for i in range(2)])
        u = w.uff()
        bad = []
        try:
            w.write(u, {'type': 2412, 'quad': e})
            got = w.read(u)
            bad = diff({'quad': e}, got, w.ip, 'dictionary with the key quad')
        except PyExc as x:
            bad = [('', 'raises %s' % x, x.origin)]
        return [('2412: legacy dictionary', m, l) for _, m, l in bad[:1]]
    ctx.ob('write then read: 2412 by element kind', legacy)


@check('C04', RT, RT_RULE, RT_NOTE, BASE)
def chk_c04(ctx):
    roundtrip(ctx, ctx.cases(58))
    texted(ctx, 58)
    limits(ctx, 58)
    alike(ctx, 58)
    truths(ctx, 0)
    for hint in (2, 4, 5, 6):
        for cplx in (0, 1):
            for even in (0, 1):
                roundtrip(ctx, [c58(3, cplx, even, 1, 0, hint=hint)])
                roundtrip(ctx, [c58(3, cplx, even, int(hint in (4, 6)), 0, force=False, hint=hint)])
    listed(ctx, 0)


def listed(ctx, b):
    """several functions in one call: each is written as it would be alone"""
    for force in (True, False):
        for kinds in (((0, 1), (0, 1)), ((0, 1), (1, 0), (0, 0)), ((1, 1), (0, 1), (1, 0))):
            for mode in ('add', 'overwrite'):
                def fn(w, force=force, kinds=kinds, mode=mode):
                    cs = [c58(2 + i, cp, ev, int(force), b, force=force, **({} if force else {'hint': (2, 5)[cp]}))
                          for i, (cp, ev) in enumerate(kinds)]
                    u = w.uff()
                    w.write(u, [c.make() for c in cs], mode=mode, force_double=force)
                    got = w.read(u)
                    if not isinstance(got, list) or len(got) != len(cs):
                        return [('number of sets', '%d functions written with mode %s are read as %s' % (len(cs), mode, type(got).__name__), None)]
                    return [x for i, c in enumerate(cs) for x in diff(c.expect(c.full()), got[i], w.ip, 'function %d of a list, mode %s, %s' % (
                        i, mode, c.name))]
                ctx.ob('list of functions %s, mode %s, force_double=%s' % (kinds, mode, force), fn)


def truths(ctx, b):
    """the switches given as truth values"""
    for cp in (0, 1):
        for ev in (0, 1):
            for db in (0, 1):
                def fn(w, cp=cp, ev=ev, db=db):
                    c = c58(3, cp, ev, db, b, force=bool(db))
                    d = c.make()
                    d.update(binary=bool(b), abscissa_spacing=bool(ev))
                    u = w.uff()
                    w.write(u, d, force_double=db)
                    return lines_bad(c, c.full(), need_file(w)) + diff(c.expect(c.full()), w.read(u), w.ip, 'truth values, ' + c.name)
                ctx.ob('truth values: cplx %d, even %d, double %d' % (cp, ev, db), fn)


@check('C05', 'value-provenance abstract interpretation over binary words (width, byte order, offset)',
       'The header fields, the binary words (unknown, width, byte order) and the position of the end tag are compared with the '
       'documented layout for both machine byte orders; the reader is interpreted on blocks of either byte order.', RT_NOTE, BASE)
def chk_c05(ctx):
    listed(ctx, 1)
    truths(ctx, 1)
    for bo in ('little', 'big'):
        for c0 in ctx.cases_binary():
            m = c0.meta
            c = c58(c0.n, m['cplx'], m['even'], m['double'], 1, bo=bo, force=bool(m['double']))

            def fn(w, c=c, bo=bo):
                u, d = write_case(w, c)
                f = need_file(w)
                bad = lines_bad(c, c.full(), f, bo)
                return bad or diff(c.expect(c.full()), w.read(u), w.ip, c.name)
            ctx.ob('%s-endian machine: %s' % (bo, c.name), fn, byteorder=bo)

            def fr(w, c=c, bo=bo):
                u, got = read_block(w, c, c.full(), bo=bo)
                return diff(c.expect(c.full()), got, w.ip, c.name)
            other = 'little' if bo == 'big' else 'big'
            ctx.ob('%s-endian file read on a %s-endian machine: %s' % (bo, other, c.name), fr, byteorder=other)

            def fo(w, c=c, bo=bo):
                # the floating point format and the number of header lines are documented as ignored
                k, o = copy.copy(c), c.typeline
                fmt, nal = i_('fp_format'), i_('n_ascii_lines')
                k.typeline = lambda d, b: [I(6, fmt) if i == 3 else I(12, nal) if i == 4 else e for i, e in enumerate(o(d, b))]
                u, got = read_block(w, k, c.full(), bo=bo)
                return diff(c.expect(c.full()), got, w.ip, 'other values on the type line, ' + c.name)
            ctx.ob('%s-endian file of another program: %s' % (bo, c.name), fo, byteorder=bo)


@check('C06', RT, RT_RULE, RT_NOTE, BASE)
def chk_c06(ctx):
    roundtrip(ctx, ctx.cases(55))
    texted(ctx, 55)
    limits(ctx, 55)
    alike(ctx, 55)


@check('C07', RT, RT_RULE, RT_NOTE, BASE)
def chk_c07(ctx):
    roundtrip(ctx, ctx.cases(2414))
    texted(ctx, 2414)
    limits(ctx, 2414)
    alike(ctx, 2414)
    for shape in ([3, 7], [7, 3], [1, 6, 12], [6, 7, 6], [5]):
        c = c2414g(2, 1, len(shape), shape)

        def nd(w, c=c):
            d = c.make(('NDVAL',))
            u, d = write_case(w, c, d)
            return lines_bad(c, c.full(), need_file(w)) or diff(c.expect(c.full()), w.read(u), w.ip, c.name)
        ctx.ob('write without NDVAL, then read: ' + c.name, nd)
    for dt in (2, 4):
        for ndv in (1, 2, 3):
            c = c2414r(2, ndv, dt)

            def fn(w, c=c):
                bad = []
                try:
                    u, d = write_case(w, c)
                    bad = lines_bad(c, c.full(), need_file(w)) or diff(c.expect(c.full()), w.read(u), w.ip, c.name)
                except PyExc as x:
                    bad = [('', 'raises %s' % x, x.origin)]
                return [('2414: analysis 5 with real data', m, l) for _, m, l in bad[:1]]
            ctx.ob('write then read: ' + c.name, fn)


@check('C08', RT, RT_RULE, RT_NOTE, BASE)
def chk_c08(ctx):
    for t in (2429, 2467):
        roundtrip(ctx, ctx.cases(t))
        texted(ctx, t)
        limits(ctx, t)
        alike(ctx, t)


@check('C09', RT, RT_RULE, RT_NOTE, BASE)
def chk_c09(ctx):
    for t in (151, 164, 1858, 2400):
        roundtrip(ctx, ctx.cases(t))
        texted(ctx, t)


# ======================================================= C10 documented layout
@check('C10', 'abstract interpretation compared with a column-layout specification',
       'Every column range the FORMAT statement documents must hold exactly the value of the documented field with at least the '
       'documented precision, and the reader must recover every field from blocks laid out as documented (E or D exponents, LF or CRLF).',
       'The specification (pyan/spec.py) is written from the documented record layouts, not from the code. ' + RT_NOTE, BASE)
def chk_c10(ctx):
    for t in TYPES:
        cs = ctx.cases(t)
        for c in cs:
            def fw(w, c=c):
                u, d = write_case(w, c)
                return lines_bad(c, c.full(), need_file(w))
            ctx.ob('records written: ' + c.name, fw)
        for c in cs if ctx.deep else thin(cs, 14) + rep(ctx, t):
            for big in (False, True, 'low'):
                if big == 'low' and not any(x.d for ln in c.body(c.full()) for x in ln):
                    continue
                for eol in ('\n', '\r\n'):
                    def fr(w, c=c, big=big, eol=eol):
                        u, got = read_block(w, c, c.full(), big=big, eol=eol)
                        return diff(c.expect(c.full()), got, w.ip, 'reading ' + c.name)
                    ctx.ob('documented block read (%s, %s): %s' % ('e/d' if big == 'low' else 'E/D' if big else 'e', 'CRLF' if eol != '\n' else 'LF', c.name), fr)
        for c in rep(ctx, t) + ([x for x in BIN] if t == 58 else []):
            for ends in ('padded', 'trimmed'):
                for eol in ('\n', '\r\n'):
                    def fe(w, c=worded(c) if ends == 'trimmed' else c, ends=ends, eol=eol):
                        u, got = read_block(w, c, c.full(), eol=eol, ends=ends)
                        return [('%s: %s records' % (t, ends), m, l) for k, m, l in
                                diff(c.expect(c.full()), got, w.ip, 'reading %s (%s records)' % (c.name, ends))[:1]]
                    ctx.ob('documented block read (%s records%s): %s' % (ends, ', CRLF' if eol != '\n' else '', c.name), fe)
    for c in BIN:
        def fw(w, c=c):
            u, d = write_case(w, c)
            return lines_bad(c, c.full(), need_file(w))
        ctx.ob('records written: ' + c.name, fw)
    for m in (7, 12, 13):
        c = c2414g(1, 1, 2, [m, m])

        def fl(w, c=c):
            bad = []
            try:
                u, d = write_case(w, c)
                bad = lines_bad(c, c.full(), need_file(w))
                if not bad:
                    u, got = read_block(w, c, c.full())
                    bad = diff(c.expect(c.full()), got, w.ip, 'reading ' + c.name)
            except PyExc as x:
                bad = [('', 'raises %s' % x, x.origin)]
            return [('2414: record 15 of data at nodes', t, l) for _, t, l in bad[:1]]
        ctx.ob('records of more than 6 values at a node: ' + c.name, fl)


def thin(xs, n):
    return xs if len(xs) <= n else [xs[i * (len(xs) - 1) // (n - 1)] for i in range(n)]


# ============================================================== C11 spilling
@check('C11', 'abstract interpretation with field-width bounds (maximal content length versus columns)',
       'A text field that shares its line must be cut to its column; a number written with a precision must not outgrow its column; '
       'the reader must separate numbers that fill their columns.', 'Bounds hold for every value.', BASE[:1])
def chk_c11(ctx):
    for t in TYPES:
        for c in rep(ctx, t):
            def fn(w, c=c):
                u, d = write_case(w, c, c.make(ml=False))
                bad = []
                for i, line in enumerate(ssplitlines(need_file(w))):
                    segs = segs_of(line)
                    lookup_known(line)
                    col = 0
                    for j, s in enumerate(segs):
                        if isinstance(s, (Part, BPart)):
                            raise Undecided('cut field')
                        if isinstance(s, Fld):
                            mx = s.maxlen()
                            last = all(isinstance(x, str) and not x.strip() for x in segs[j + 1:])
                            wid = s.width
                            nxt = segs[j + 1] if j + 1 < len(segs) else ''
                            gap = len(nxt) - len(nxt.lstrip(' ')) if isinstance(nxt, str) else 0
                            if s.conv == 's' and s.sym.kind == 'str':
                                if not last and (mx is None or mx > wid):
                                    bad.append(('%s: %s spills' % (t, s.sym.term[1]), '%s: text %s (%s) may outgrow its column and move '
                                                'the fields behind it' % (c.name, s.sym, s.fmt()), s.loc))
                            elif mx is not None and mx > wid:
                                bad.append(('%s: number spills' % t, '%s: %r may outgrow its %d columns' % (c.name, s, wid), s.loc))
                return bad
            ctx.ob('fields stay in their columns: ' + c.name, fn)
    # numbers that fill their columns
    for t in TYPES:
        for c in rep(ctx, t):
            def fr(w, c=c):
                segs = [s.copy(zero=True) if isinstance(s, Fld) and s.numeric() and s.width else s for s in c.block(c.full())]
                w.put(segs)
                u = w.uff()
                try:
                    got = w.read(u)
                except PyExc as e:
                    return [('reader of %s: full columns' % t, 'reading %s: numbers that fill their columns are not separated: %s' % (
                        c.name, e), e.origin)]
                except Undecided as e:
                    if 'words' in str(e) or 'token' in str(e):
                        return [('reader of %s: full columns' % t, str(e), None)]
                    raise
                b = diff(c.expect(c.full()), got, w.ip, 'reading ' + c.name)
                return [('reader of %s: full columns' % t, m, l) for k, m, l in b[:1]]
            ctx.ob('full columns read: ' + c.name, fr)

            def ff(w, c=c):
                segs, first, cut = [], True, False
                for s in c.block(c.full()):
                    if isinstance(s, str):
                        if s:
                            first = s[-1] in '\r\n'
                    else:
                        if first and isinstance(s, Fld) and s.numeric() and s.width:
                            s = s.copy(zero=True)
                        first = False
                    segs.append(s)
                w.put(segs)
                got = w.read(w.uff())
                return [('reader of %s: full first column' % t, m, l) for k, m, l in diff(c.expect(c.full()), got, w.ip, 'reading ' + c.name)[:1]]
            ctx.ob('full first column read: ' + c.name, ff)


# ============================================================== C12 defaults
@check('C12', 'abstract interpretation with each optional key absent, compared with the layout specification',
       'For every optional key, and for all of them together, the record written without the key equals the documented record with the '
       'default; every required key that is absent raises.', 'Table of defaults in pyan/spec.py.', BASE)
def chk_c12(ctx):
    for t in TYPES:
        for ci, c in enumerate(rep(ctx, t) if t != 2414 else [c2414g(1, 1, 2, [3, 3])]):
            keys = [k for k in c.opt if k in c.defaults]
            if t in (2420,) and c.n != 1:
                keys = ['Part_UID', 'Part_Name']
            if t == 58:
                keys = [k for k in keys if not (k == 'abscissa_spacing' and c.meta['even'])]
            sets = [(k,) for k in keys] + ([tuple(keys)] if len(keys) > 1 else [])
            if not ctx.deep and ci and t == 58:
                sets = sets[-1:]
            for om in sets:
                def fn(w, c=c, om=om):
                    u, d = write_case(w, c, c.make(om))
                    full = c.full(om)
                    bad = lines_bad(c, full, need_file(w))
                    return [(k, 'without %s: %s' % (', '.join(om) if len(om) < 4 else 'all optional keys', m), l) for k, m, l in bad] or \
                        diff(c.expect(full), w.read(u), w.ip, '%s without %s' % (c.name, ', '.join(om[:3])))
                ctx.ob('%s without %s' % (c.name, om[0] if len(om) == 1 else 'all %d optional keys' % len(om)), fn)
    for c in BIN:
        keys = tuple(k for k in c.opt if k in c.defaults and k not in ('binary', 'abscissa_spacing'))

        def fn(w, c=c, keys=keys):
            u, d = write_case(w, c, c.make(keys))
            return lines_bad(c, c.full(keys), need_file(w))
        ctx.ob('%s without all optional keys' % c.name, fn)
    # active_* numbers of groups
    for t in (2429, 2467):
        for cnt in ((1,), (3, 2)):
            c = cgroups(t, cnt, omit_active=True)

            def fn(w, c=c):
                u, d = write_case(w, c)
                return lines_bad(c, c.full(), need_file(w)) or diff(c.expect(c.full()), w.read(u), w.ip, c.name)
            ctx.ob('%s without active numbers' % c.name, fn)
    # dates of 151
    c = c151()
    dates = ('date_db_created', 'time_db_created', 'date_db_saved', 'time_db_saved', 'date_file_written', 'time_file_written')

    def fdate(w):
        d = c.make(dates + ('version_db1', 'version_db2', 'file_type'))
        u, d = write_case(w, c, d)
        got = w.read(u)
        bad = diff({k: d[k] for k in ('model_name', 'description', 'db_app', 'program')}, got, w.ip, '151 without dates')
        for k in dates:
            if k not in got or got[k] is None or got[k] == '':
                bad.append(('151: default of ' + k, '151: %r is not filled with the current date or time' % k, None))
        return bad
    ctx.ob('151 without dates and versions', fdate)

    for k in dates:
        for other in (True, False):
            def fone(w, k=k, other=other):
                # a date that is absent is the present one, whatever the other dates are
                base = World(ctx.pkg, w.ip.dec)
                u, d = write_case(base, c, c.make(dates))
                now = base.read(u)[k]
                om = (k,) if other else tuple(x for x in dates if x != k)
                u, d = write_case(w, c, c.make(om))
                got = w.read(u)
                bad = diff({x: v for x, v in c.full(om).items() if x not in om}, got, w.ip, '151 without ' + ', '.join(om))
                if other and got.get(k) != now:
                    bad.append(('151: default of ' + k, '151: %r is %s if it is the only date that is absent, but %s if all are' % (
                        k, short(got.get(k)), short(now)), None))
                return bad
            ctx.ob('151 %s %s' % ('without only' if other else 'with only', k), fone)

    def fdb(w):
        d = c.make(('date_file_written', 'time_file_written'))
        d['date_db_written'], d['time_db_written'] = t_('date_db_written', 10), t_('time_db_written', 10)
        u, d2 = write_case(w, c, dict(d))
        return diff({'date_file_written': d['date_db_written'], 'time_file_written': d['time_db_written']}, w.read(u), w.ip,
                    '151 prepared dates')
    ctx.ob('151 with the dates of prepare_151', fdb)


# ============================================================= C13 prepare
def prep_value(t, k, kind, n=2):
    """an accepted value"""
    if kind in ('str', 'name'):
        return t_(k, 10)
    if kind == 'ints' or kind == 'int!':
        return ints(k, n)
    if kind == 'int':
        return ints(k, n) if k in ('node_nums', 'nodes', 'def_cs', 'disp_cs', 'color', 'CS_sys_labels', 'CS_colors', 'nodes_nums',
                                   'element_nums') else i_(k)
    if kind in ('int1', 'nat1'):
        return i_(k)
    if kind == 'float':
        if k == 'CS_matrices':
            return [Arr([atom('float', k, j) for j in range(12)], (4, 3), 'f8')]
        return flts(k, n) if k in ('x', 'y', 'z') else f_(k)
    if kind == 'float1':
        return f_(k)
    if kind == 'num':
        return flts(k, n) if k[0] == 'r' and len(k) == 2 else atom('complex', k)
    if kind == 'cplx':
        return cpxs(k, n)
    if kind == 'list32':
        return [atom('int', k, i) for i in range(32)]
    if kind == 'strs':
        return [atom('str', k, i, ml=10) for i in range(n)]
    if kind == 'codes3':
        return [0, 2]
    if isinstance(kind, tuple):
        return kind[1][len(kind[1]) // 2]
    return atom('any', k) if False else flts(k, n)


def snap(v):
    """deep copy of a value of the analysed program"""
    if isinstance(v, Arr):
        return Arr(v.elems(), v.shape, v.dt)
    if isinstance(v, list):
        return [snap(x) for x in v]
    if isinstance(v, tuple):
        return tuple(snap(x) for x in v)
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    return v


@check('C13', 'abstract interpretation (identity of the argument-to-key flow)',
       'Every documented argument of every prepare function must reach exactly the key of its name, unchanged; keys without argument '
       'are left out, or None with return_full_dict; what is prepared must be writable and read back.',
       'Arguments are unknowns of the documented kind.', BASE)
def chk_c13(ctx):
    for t in TYPES:
        if t in (2429, 2467):
            continue
        P = PREP[t]
        f = 'prepare_%d' % t

        def mk(P=P, t=t):
            return {k: prep_value(t, k, kind) for k, kind in P.items()}

        def full(w, f=f, mk=mk, t=t):
            a = mk()
            got = w.call(f, **a)
            bad = diff(dict(mk(), type=t), got, w.ip, f)
            return bad + [(f + ': extra ' + str(k), '%s adds the key %r' % (f, k), None) for k in got
                          if k not in a and k != 'type' and got[k] is not None]

        def none(w, f=f, t=t, P=P):
            got = w.call(f)
            bad = diff({'type': t}, got, w.ip, f)
            bad += [(f + ': extra ' + str(k), '%s() has the key %r' % (f, k), None) for k in got if k != 'type']
            got = w.call(f, return_full_dict=True)
            return bad + diff(dict({k: None for k in P}, type=t), got, w.ip, f + ' with return_full_dict')
        ctx.ob(f + ' with every argument', full)
        ctx.ob(f + ' without arguments', none)
        for k in P:
            def one(w, f=f, k=k, t=t, P=P):
                v = prep_value(t, k, P[k])
                got = w.call(f, **{k: v})
                bad = diff({'type': t, k: prep_value(t, k, P[k])}, got, w.ip, f)
                bad += [(f + ': extra ' + str(o), '%s(%s=...) has the key %r' % (f, k, o), None) for o in got if o not in ('type', k)]
                got = w.call(f, **{k: v, 'return_full_dict': True})
                e = {o: None for o in P}
                e.update({'type': t, k: prep_value(t, k, P[k])})
                return bad + diff(e, got, w.ip, f + ' with return_full_dict')
            ctx.ob('%s(%s=)' % (f, k), one)
        # falsy values are values
        for k, kind in P.items():
            vals = [0] if kind in ('int', 'int1') or isinstance(kind, tuple) and 0 in kind[1] else \
                [''] if kind == 'str' else [0.0] if kind in ('float', 'float1') else []
            for v in vals:
                def zero(w, f=f, k=k, v=v, t=t):
                    return diff({'type': t, k: v}, w.call(f, **{k: v}), w.ip, '%s(%s=%r)' % (f, k, v))
                ctx.ob('%s(%s=%r)' % (f, k, v), zero)
        # prepared dictionaries are written as they are
        for c in rep(ctx, t) + (BIN if t == 58 else []):
            if t == 2412:
                continue

            def comp(w, c=c, f=f, P=P, t=t):
                d = c.make()
                args = {k: v for k, v in d.items() if k in P}
                if t == 151:
                    args['file_type'] = 1
                for k, kind in P.items():
                    if isinstance(kind, tuple) and k in args and isinstance(args[k], Sym):
                        args[k] = kind[1][-1]
                        d[k] = kind[1][-1]
                if t == 151:
                    d['file_type'] = 1
                if t == 2420:
                    args['CS_types'] = [1] * c.n
                    d['CS_types'] = [1] * c.n
                if t == 2414:
                    for k in ('data_at_node', 'element_nums', 'data_at_nodes_on_element', 'IEXP'):
                        if k in d:
                            return []
                p = w.call(f, **args)
                extra = {k: v for k, v in d.items() if k not in P and k not in ('type',)}
                for k in extra:
                    p[k] = extra[k]
                ref = World(ctx.pkg, w.ip.dec)
                write_case(ref, c, d)
                write_case(w, c, p)
                a, b = w.file(), ref.file()
                if a != b:
                    return [(f + ': written', '%s: what is prepared is written differently from the dictionary itself (%s)' % (f, c.name),
                             None)]
                return []
            ctx.ob('%s then write: %s' % (f, c.name), comp)
    for t, f in ((2429, 'prepare_2429'), (2467, 'prepare_2467')):
        def grp(w, t=t, f=f):
            g = {'group_number': 3, 'group_name': 'A GROUP'}
            for k in GCOLS[t]:
                g[k] = ints(k, 3)
            for i, k in enumerate(ACT):
                g[k] = i
            gs = [dict(g), dict(g, group_number=4)]
            got = w.call(f, groups=gs)
            bad = diff({'type': t, 'groups': [dict(g), dict(g, group_number=4)]}, got, w.ip, f)
            got = w.call(f, groups=gs, return_full_dict=True)
            return bad + diff({'type': t, 'groups': [dict(g), dict(g, group_number=4)]}, got, w.ip, f)
        ctx.ob(f, grp)

    def group(w):
        a = {'group_number': 3, 'group_name': 'A GROUP', 'entity_type_code': ints('entity_type_code', 3),
             'entity_tag': ints('entity_tag', 3)}
        got = w.call('prepare_group', **a)
        bad = diff(dict(a, **{k: 0 for k in ACT}), got, w.ip, 'prepare_group')
        for i, k in enumerate(ACT):
            got = w.call('prepare_group', **dict(a, **{k: i + 5}))
            bad += diff(dict(dict(a, **{o: 0 for o in ACT}), **{k: i + 5}), got, w.ip, 'prepare_group(%s)' % k)
        got = w.call('prepare_group', **dict(a, **{k: i + 1 for i, k in enumerate(ACT)}))
        bad += diff(dict(a, **{k: i + 1 for i, k in enumerate(ACT)}), got, w.ip, 'prepare_group')
        d = w.call('prepare_2429', groups=[got])
        u = w.uff()
        w.write(u, d)
        g = w.read(u)
        return bad + diff({'type': 2429, 'groups': [dict(a, number_of_entities_in_group=3, **{k: i + 1 for i, k in enumerate(ACT)})]},
                          g, w.ip, 'prepare_group, prepare_2429, write, read')
    ctx.ob('prepare_group', group)


# ============================================================== C14 guards
def wrong_values(k, kind):
    s = t_('wrong', 10)
    fl = atom('float', 'wrong')
    if kind in ('str',):
        return [5, atom('int', 'wrong'), fl, 0, 0.0, []]
    if kind in ('int', 'ints'):
        return [fl, s, 1.5, [0.5, 1.0], '', 0.0, [0.0], [1, 2.5], [1, 2, 3, 0.0], [1, 'a'], [1, fl], (1, 2, s)]
    if kind == 'int1':
        return [fl, s, 1.5, '', 0.0]
    if kind == 'int!':
        return [flts('wrong', 2), [0.5], '', 0.0]
    if kind == 'nat1':
        return [fl, s, -1, 1.5, '', 0.0]
    if kind == 'name':
        return [5, '', 0, []]
    if kind == 'float':
        return [5, atom('int', 'wrong'), s, [1, 2], 0, '', [0], [1.5, 'a'], [0.5, 1j], (fl, s)]
    if kind == 'float1':
        return [5, atom('int', 'wrong'), s, 0, '']
    if kind in ('num', 'cplx'):
        return [s, '']
    if kind == 'list32':
        return [[0] * 31, [0] * 33, [], 5, 0, '']
    if kind == 'strs':
        return [[5], [t_('a', 10), 5], 5, 0, [0], ['a', 'b', 5], [5, 'a']]
    if kind == 'codes3':
        return [[3], [-1], [0, 3], [0, 1, -1, 2], (7,), [0, 1, 2, 0, 1, 2, 3]]
    if isinstance(kind, tuple):
        v = kind[1]
        out = sorted({x + dx for x in v for dx in (-1, 1)} - set(v)) + [-7, 100, 58, 1000, 0, '']
        return [x for x in out if x not in v]
    return []


@check('C14', 'abstract interpretation of the argument guards (accepted and rejected value classes)',
       'Each argument outside its documented kind or set of codes must raise; each documented code and kind must be accepted.',
       'Kinds are decided on unknowns of the kind, codes are enumerated with their neighbours.', BASE[:1])
def chk_c14(ctx):
    for t, P in PREP.items():
        f = 'prepare_%d' % t
        for k, kind in P.items():
            if kind is None:
                continue

            def rej(w, f=f, k=k, kind=kind):
                bad = []
                for v in wrong_values(k, kind):
                    if w.raises(w.call, f, **{k: snap(v)}) is None:
                        bad.append(('%s: %s accepts' % (f, k), '%s(%s=%s) is accepted' % (f, k, short(v)), None))
                return bad
            ctx.ob('%s(%s=) rejects' % (f, k), rej)

            def acc(w, f=f, k=k, kind=kind):
                bad = []
                vals = [c for c in kind[1]] if isinstance(kind, tuple) else [prep_value(0, k, kind)]
                if kind == 'int':
                    vals += [atom('int', k), 0, 7, [1, 2], ints(k, 3), [[1, 2], [3, 4]]]
                if kind == 'codes3':
                    vals += [[0], [1], [2], (0, 1, 2), [2, 2, 2, 0]]
                if kind == 'ints':
                    vals += [[1, 2], (1, 2), ints(k, 1)]
                if kind in ('float', 'float1'):
                    vals += [f_(k), 0.0, -1.5]
                if kind == 'float':
                    vals += [flts(k, 1), flts(k, 3), [0.5, 1.5]]
                if kind == 'num':
                    vals += [flts(k, 3), cpxs(k, 3), 1.5, 2j]
                if kind == 'cplx':
                    vals += [flts(k, 3), cpxs(k, 1), [1.5, 2.5], [1j, 2.0]]
                if kind == 'str':
                    vals += ['', 'NONE', t_(k)]
                for v in vals:
                    e = w.raises(w.call, f, **{k: v})
                    if e is not None:
                        bad.append(('%s: %s rejects' % (f, k), '%s(%s=%s) raises %s' % (f, k, short(v), e), e.origin))
                return bad
            ctx.ob('%s(%s=) accepts' % (f, k), acc)
    base = {'group_number': 3, 'group_name': 'g', 'entity_type_code': ints('entity_type_code', 2), 'entity_tag': ints('entity_tag', 2)}
    for k, kind in GROUP.items():
        def rej(w, k=k, kind=kind):
            bad = []
            for v in wrong_values(k, kind):
                if w.raises(w.call, 'prepare_group', **dict(base, **{k: v})) is None:
                    bad.append(('prepare_group: %s accepts' % k, 'prepare_group(%s=%s) is accepted' % (k, short(v)), None))
            if kind == 'nat1':
                for v in (0, 1, 10):
                    e = w.raises(w.call, 'prepare_group', **dict(base, **{k: v}))
                    if e:
                        bad.append(('prepare_group: %s rejects' % k, 'prepare_group(%s=%d) raises %s' % (k, v, e), e.origin))
            return bad
        ctx.ob('prepare_group(%s=)' % k, rej)
    for t in (2429, 2467):
        f = 'prepare_%d' % t
        g = {'group_number': 3, 'group_name': 'g'}
        for k in GCOLS[t]:
            g[k] = ints(k, 2)
        for k in ACT:
            g[k] = 0

        def rej(w, f=f, t=t, g=g):
            bad = []
            cases = [('no list', dict(g)), ('tuple', (dict(g),))]
            for k, kind in GROUP.items():
                cases += [('%s=%s' % (k, short(v)), [dict(g), dict(g, **{k: snap(v)})]) for v in wrong_values(k, kind)]
            if t == 2467:
                cases += [('%s=%s' % (k, short(v)), [dict(g), dict(g, **{k: snap(v)})])
                          for k in ('entity_node_leaf_id', 'entity_component_id') for v in wrong_values(k, 'int!')]
            for k in g:
                cases.append(('no %s' % k, [dict(g), {x: v for x, v in g.items() if x != k}]))
            for lab, gs in cases:
                if w.raises(w.call, f, groups=gs) is None:
                    bad.append(('%s accepts %s' % (f, lab.split('=')[0]), '%s accepts groups: %s' % (f, lab), None))
            for gs in [[dict(g)], [dict(g), dict(g)], []] + [[dict(g, **{k: v})] for k in ACT + ('group_number',) for v in (0, 1, 10)]:
                e = w.raises(w.call, f, groups=gs)
                if e is not None:
                    bad.append((f + ' rejects', '%s rejects documented groups: %s' % (f, e), e.origin))
            return bad
        ctx.ob(f + ' groups', rej)


# ======================================================== C15 derived header
@check('C15', 'abstract interpretation of the derived header fields against the layout specification',
       'ordinate data type, number of points, spacing, minimum, increment and byte count of the record written must follow from data, x '
       'and force_double for every caller-given stale value; the dictionary must afterwards hold the type written.',
       'Every combination of data kind, spacing, precision option and stale value.', BASE)
def chk_c15(ctx):
    limits(ctx, 58)
    alike(ctx, 58)
    for cplx in (0, 1):
        for even in (0, 1):
            for force in (True, False):
                for hint in (None, 2, 4, 5, 6):
                    for binary in (0, 1):
                        double = 1 if force or hint in (4, 6) else 0
                        for n in (1, 2, 5) if hint is None else (3,):
                            c = c58(n, cplx, even, double, binary, force=force, hint=hint)

                            def fn(w, c=c, n=n, binary=binary):
                                d = c.make()
                                for k in ('num_pts', 'abscissa_min', 'abscissa_inc'):
                                    d[k] = atom('int' if k == 'num_pts' else 'float', 'stale_' + k)
                                d['n_bytes'] = atom('int', 'stale_n_bytes')
                                u, d = write_case(w, c, d)
                                bad = [x for x in lines_bad(c, c.full(), need_file(w))]
                                m = c.meta
                                if d.get('ord_data_type') != m['odt']:
                                    bad.append(('ord_data_type of the caller', '%s: the dictionary says ordinate data type %r, %d is written' % (
                                        c.name, d.get('ord_data_type'), m['odt']), None))
                                if binary and d.get('n_bytes') != m['nbytes']:
                                    bad.append(('n_bytes of the caller', '%s: the dictionary says %r bytes, %d are written' % (
                                        c.name, d.get('n_bytes'), m['nbytes']), None))
                                return bad
                            ctx.ob('force_double=%s given type %s: %s' % (force, hint, c.name), fn)


# ========================================================== C16 header_only
@check('C16', 'abstract interpretation of both reading modes',
       'With header_only the header keys equal those of the full read, x and data are None, and the data records are not interpreted; '
       'types without the option are read as usual.', RT_NOTE, BASE)
def chk_c16(ctx):
    limits(ctx, 58)
    alike(ctx, 58)
    cs = rep(ctx, 58) + [c58(n, cp, ev, db, b, force=bool(db)) for b in (0, 1) for cp in (0, 1) for ev in (0, 1) for db in (0, 1) for n in (2, 5)]
    for c in cs:
        def fn(w, c=c):
            put_block(w, c, c.full())
            u = w.uff()
            got = w.read(u, header_only=True)
            e = c.expect(c.full())
            e['x'] = e['data'] = None
            bad = diff(e, got, w.ip, 'header of ' + c.name)
            got = w.read(u)
            bad += diff(c.expect(c.full()), got, w.ip, 'full read after the header of ' + c.name)
            got = w.read(u, setn=0, header_only=True)
            bad += diff(e, got, w.ip, 'header of set 0 ' + c.name)
            bad += diff(e, w.read(u, header_only=1), w.ip, 'header_only=1, ' + c.name)
            return bad + diff(c.expect(c.full()), w.read(u, header_only=0), w.ip, 'header_only=0, ' + c.name)
        ctx.ob('header of ' + c.name, fn)
        ctx.ob('header of %s, texts with wide characters' % c.name, fn, wide=1)
        if not c.binary:
            def garbled(w, c=c):
                segs = c.block(c.full())
                n = 0
                out = []
                for s in segs:
                    if isinstance(s, str):
                        n += s.count('\n')
                    out.append(s)
                    if n >= 13:
                        break
                w.put(out + ['not a number\n', '    -1\n'])
                u = w.uff()
                e = c.expect(c.full())
                e['x'] = e['data'] = None
                return diff(e, w.read(u, header_only=True), w.ip, 'header in front of unreadable data: ' + c.name)
            ctx.ob('header alone is interpreted: ' + c.name, garbled)
    for t in TYPES:
        if t == 58:
            continue
        c = rep(ctx, t)[0]

        def fo(w, c=c):
            put_block(w, c, c.full())
            u = w.uff()
            return diff(c.expect(c.full()), w.read(u, header_only=True), w.ip, 'header_only: ' + c.name)
        ctx.ob('header_only of ' + c.name, fo)

    for c in (c58(40, 0, 1, 1, 0), c58(40, 1, 0, 1, 1), c58(40, 0, 1, 1, 1), c151(), c55(2, 2), cgroups(2467, (3, 2))):
        for ch in ('\u017e', '\u2126', '\U0001d70e', 'x'):
            def filled(w, c=worded(c, 0, (ch * 80,)), ch=ch):
                put_block(w, c, c.full())
                u = w.uff()
                e = c.expect(c.full())
                h = dict(e, x=None, data=None) if c.typ == 58 else e
                return diff(h, w.read(u, header_only=True), w.ip, 'header_only of %s, texts full of %r' % (c.name, ch)) or \
                    diff(e, w.read(u), w.ip, 'full read of %s, texts full of %r' % (c.name, ch))
            ctx.ob('header_only of %s, texts full of U+%04X' % (c.name, ord(ch)), filled)

    def several(w):
        a, b, c = c58(3, 0, 1, 1, 0), c15(2), c58(2, 1, 0, 1, 1)
        segs = []
        for x in (a, b, c):
            segs += x.block(x.full())
        w.put(segs)
        got = w.read(w.uff(), header_only=True)
        bad = []
        for i, x in enumerate((a, b, c)):
            e = x.expect(x.full())
            if x.typ == 58:
                e['x'] = e['data'] = None
            bad += diff(e, got[i], w.ip, 'set %d of several with header_only' % i)
        return bad
    ctx.ob('header_only of several sets', several)
    for c in LARGE():
        def big(w, c=c):
            put_block(w, c, c.full())
            u = w.uff()
            e = c.expect(c.full())
            h = dict(e, x=None, data=None) if c.typ == 58 else e
            return diff(h, w.read(u, header_only=True), w.ip, 'header_only: ' + c.name) or diff(e, w.read(u), w.ip, 'full read of ' + c.name)
        ctx.ob('header_only of a large block: ' + c.name, big, budget=6000000)

    pairs = [(c58(3, 0, 1, 1, 0), c58(4, 1, 0, 1, 0)), (c58(3, 0, 1, 1, 1), c58(3, 0, 1, 1, 0)), (c58(2, 1, 0, 1, 0), c58(2, 1, 0, 1, 1))]
    for a, b in pairs + [(y, x) for x, y in pairs]:
        def again(w, a=a, b=b):
            # nothing is kept of what the file held before
            bad = []

            def head(d, what):
                e = dict(c_of[what[0]].expect(d), x=None, data=None)
                return diff(e, w.read(u, header_only=True), w.ip, 'header of %s %s' % (c_of[what[0]].name, what[1]))
            c_of = {0: a, 1: b}
            u = w.uff()
            w.write(u, a.make())
            bad += head(a.full(), (0, 'at first'))
            got = w.read(u, header_only=True)
            for k in list(got):
                got[k] = 'changed'
            bad += head(a.full(), (0, 'after the dictionary read before was changed'))
            w.write(u, b.make(), mode='overwrite')
            bad += head(b.full(), (1, 'that replaced another'))
            bad += diff(b.expect(b.full()), w.read(u), w.ip, 'set that replaced another')
            put_block(w, a, a.full())
            w.meth(u, 'refresh')
            bad += head(a.full(), (0, 'after the file was replaced and refreshed'))
            return bad + diff(a.expect(a.full()), w.read(u), w.ip, 'set after the file was replaced and refreshed')
        ctx.ob('headers of a file that changes: %s, %s' % (a.name, b.name), again)


from . import checks2  # noqa: E402,F401
