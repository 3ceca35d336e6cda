"""The obligations about the file as a whole, its index, and the public surface."""
import itertools
import math
import struct
from .checks import *          # noqa: F401,F403
from .checks import check, limits, alike, need_file, write_case, LARGE, diff, lines_bad, rep, BIN, all_rep, snap, BASE, RT_NOTE, short, cell_bad, content_loc, kw_of, thin, prep_value, GCOLS
from .engine import *
from .spec import *
from .prep import PREP, ACT

def droppable(c):
    """optional keys that can be left out together"""
    if c.typ == 2420 and c.n != 1:
        return ('Part_UID', 'Part_Name')
    if c.typ == 151:
        return tuple(k for k in c.opt if k in ('version_db1', 'version_db2', 'file_type'))
    return tuple(k for k in c.opt if k not in ('binary', 'abscissa_spacing'))


HOST_T = (int, float, complex, str, bytes, bool)


def tag(v, k):
    """the same value made of other unknowns"""
    if isinstance(v, Sym) and v.term[0] == 'a':
        return v.with_(term=v.term + ('#%s' % k,))
    if isinstance(v, Arr):
        return Arr([tag(x, k) for x in v.elems()], v.shape, v.dt)
    if isinstance(v, list):
        return [tag(x, k) for x in v]
    if isinstance(v, tuple):
        return tuple(tag(x, k) for x in v)
    if isinstance(v, dict):
        return {a: tag(x, k) for a, x in v.items()}
    return v


def fmt_of(c):
    return 1 if c.binary else 0


def content(w, path=PATH):
    return list(w.ip.fs[vkey(path)]) if vkey(path) in w.ip.fs else None


def index_bad(w, u, exp, what, read=True, each=True):
    """exp: list of (type, format, expected dictionary)"""
    bad = []
    n = w.meth(u, 'get_n_sets')
    if n != len(exp):
        return [('number of sets', '%s: get_n_sets() is %r, the file holds %d' % (what, n, len(exp)), None)]
    ty = norm(w.meth(u, 'get_set_types'))
    if not same(ty, [e[0] for e in exp]):
        bad.append(('set types', '%s: get_set_types() is %s, the file holds %s' % (what, short(ty), [e[0] for e in exp]), None))
    fo = norm(w.meth(u, 'get_set_formats'))
    if not same(fo, [e[1] for e in exp]):
        bad.append(('set formats', '%s: get_set_formats() is %s, expected %s' % (what, short(fo), [e[1] for e in exp]), None))
    if w.meth(u, 'get_status') is not True:
        bad.append(('status', '%s: get_status() is %r after the index was asked for' % (what, w.meth(u, 'get_status')), None))
    if read:
        got = w.read(u)
        if len(exp) == 1:
            got = [got]
        if not isinstance(got, list) or len(got) != len(exp):
            return bad + [('sets read', '%s: read_sets() gives %s sets, the file holds %d' % (
                what, len(got) if isinstance(got, list) else short(got), len(exp)), None)]
        for i, (t, f, e) in enumerate(exp):
            bad += diff(e, got[i], w.ip, '%s: set %d of read_sets()' % (what, i))
            if each:
                bad += diff(e, w.read(u, i), w.ip, '%s: read_sets(%d)' % (what, i))
    return bad


def many(ctx):
    """files of many sets, looked at in different ways before the sets are read"""
    pool = [c58(3, 0, 1, 1, 0), BIN[0], c15(1), c82(3), c151(), BIN[1], c164(), cgroups(2467, (1,)), c15(2), c2411(1), c55(2, 1), c82(9), c15(1)]
    looks = {'none': (), 'types': ('get_set_types',), 'formats': ('get_set_formats',), 'number': ('get_n_sets',),
             'all': ('get_n_sets', 'get_set_formats', 'get_set_types', 'get_status', 'get_supported_sets'), 'refresh': ('refresh', 'get_set_types')}
    for how, ms in looks.items():
        for order in ('up', 'down', 'list'):
            def fn(w, ms=ms, order=order):
                ds = [tag(c.full(), k) for k, c in enumerate(pool)]
                w.put([s for c, d in zip(pool, ds) for s in c.block(d)])
                u = w.uff()
                for m in ms:
                    w.meth(u, m)
                n = len(pool)
                ks = list(range(n)) if order == 'up' else list(range(n))[::-1] if order == 'down' else [(5 * i + 3) % n for i in range(n)]
                got = w.read(u, ks) if order == 'list' else [w.read(u, k) for k in ks]
                bad = []
                for k, g in zip(ks, got):
                    bad += diff(pool[k].expect(ds[k]), g, w.ip, 'set %d of %d' % (k, n))
                return bad + index_bad(w, u, [(c.typ, fmt_of(c), c.expect(d)) for c, d in zip(pool, ds)], 'file of %d sets' % n, each=False)
            ctx.ob('file of %d sets, asked before: %s, read: %s' % (len(pool), how, order), fn)
    own = [v for v in ctx.buffers(('pyuff', 'tools'), 21, 800 if ctx.deep else 260)]
    for n in own[-1:]:
        def large(w, n=n):
            cs = [(BIN[1] if k == 3 else c15(1)) for k in range(n + 1)]
            ds = [tag(c.full(), k) for k, c in enumerate(cs)]
            w.put([s for c, d in zip(cs, ds) for s in c.block(d)])
            u = w.uff()
            return index_bad(w, u, [(c.typ, fmt_of(c), c.expect(d)) for c, d in zip(cs, ds)], 'file of %d sets' % (n + 1), each=False)
        ctx.ob('file of more sets than any limit in the code: %d' % (n + 1), large, budget=40000000)


def gt(c, d=None):
    return (c.typ, fmt_of(c), c.expect(c.full() if d is None else d))


# ============================================================ C01 dispatch
UNKNOWN = (1, 2, 3, 5, 8, 16, 17, 19, 54, 56, 57, 59, 80, 81, 83, 100, 150, 152, 163, 165, 241, 242, 580, 781, 999, 1585, 1857,
           1859, 2399, 2401, 2410, 2413, 2415, 2419, 2421, 2428, 2430, 2466, 2468, 5815, 9999, 24110, 99999)


@check('C01', 'abstract interpretation of both dispatch chains over every supported type, its neighbours and an unknown type',
       'A data-set of a supported type is written as one block of exactly that type, listed with that type and format, and read as a '
       'dictionary of that type with its contents; a type that is not supported is neither written nor interpreted.',
       'Types are the 16 supported ones, the neighbouring numbers, and one unknown number outside the list.', BASE)
def chk_c01(ctx):
    for c in all_rep(ctx):
        def fn(w, c=c):
            u, d = write_case(w, c)
            need_file(w)
            e = c.expect(c.full())
            bad = index_bad(w, u, [(c.typ, fmt_of(c), e)], 'after writing ' + c.name)
            got = w.read(u)
            if not isinstance(got, dict) or not same(got.get('type'), c.typ) or len(got) < 2:
                bad.append(('read', '%s is read as %s' % (c.name, short(got)), None))
            v = w.uff()
            return bad + index_bad(w, v, [(c.typ, fmt_of(c), e)], 'a new object after writing ' + c.name)
        ctx.ob('written, listed and read as its type: ' + c.name, fn)

        def fr(w, c=c):
            w.put(c.block(c.full()))
            return index_bad(w, w.uff(), [gt(c)], 'documented block of ' + c.name)
        ctx.ob('documented block listed and read: ' + c.name, fr)
    for c in LARGE():
        def lg(w, c=c):
            a = c15(2)
            u = w.uff()
            w.write(u, [c.make(), a.make()])
            return index_bad(w, u, [gt(c), gt(a)], 'a large set and another')
        ctx.ob('large set written, listed and read: ' + c.name, lg, budget=6000000)
    for t in UNKNOWN:
        def unk(w, t=t):
            w.put(['    -1\n', '%6d\n' % t, '         1       2.0 text\n', '    -1\n'])
            u = w.uff()
            bad = index_bad(w, u, [(t, 0, {'type': t})], 'a block of type %d' % t)
            got = w.read(u)
            if set(got) != {'type'}:
                bad.append(('unknown type read', 'type %d is read with the keys %s' % (t, sorted(got)), None))
            before = content(w)
            w.write(u, {'type': t, 'x': 1})
            if content(w) != before:
                bad.append(('unknown type written', 'writing type %d changes the file' % t, None))
            w.write(u, [{'type': t}, {'type': t}])
            if content(w) != before:
                bad.append(('unknown type written', 'writing type %d changes the file' % t, None))
            return bad + index_bad(w, u, [(t, 0, {'type': t})], 'after writing type %d' % t)
        ctx.ob('type %d is not interpreted' % t, unk)

    def symtype(w):
        n = atom('int', 'type_number')
        w.put(['    -1\n', Fld(n, 'i', 6), '\n', '         1       2.0 text\n', '    -1\n'])
        u = w.uff()
        ty = norm(w.meth(u, 'get_set_types'))
        if not same(ty, [n]):
            return [('set types', 'get_set_types() is %s for a type line %s' % (short(ty), n), None)]
        return []
    ctx.ob('any type number is listed', symtype)

    def between(w):
        a, b = c15(2), c82(3)
        u = w.uff()
        da, db = a.make(), b.make()
        w.write(u, [da, {'type': 781, 'anything': [1, 2]}, db])
        return index_bad(w, u, [gt(a), gt(b)], 'an unsupported set between two supported ones')
    ctx.ob('unsupported set in a list', between)

    def supported(w):
        got = norm(w.meth(w.uff(), 'get_supported_sets'))
        exp = sorted([str(t) for t in TYPES] + ['58b'])
        if sorted(map(str, got)) != exp:
            return [('supported sets', 'get_supported_sets() is %s' % got, None)]
        return []
    ctx.ob('list of supported sets', supported)

    def notype(w):
        u = w.uff()
        if w.raises(w.write, u, {'node_nums': [1]}) is None:
            return [('no type', 'a dictionary without type is accepted', None)]
        return []
    ctx.ob('a type is required', notype)


# ============================================================== C02 framing
def maxwidth(line):
    n = 0
    for s in segs_of(line):
        if isinstance(s, Fld):
            m = s.maxlen()
            n += max(s.width, m or 0)
        else:
            n += seglen(s)
    return n


def taglike(line):
    """may the line read as a start or end tag?"""
    segs = [s for s in segs_of(line)]
    while segs and isinstance(segs[-1], str) and not segs[-1].strip():
        segs.pop()
    if not segs:
        return False
    if all(isinstance(s, str) for s in segs):
        return ''.join(segs).rstrip() == '    -1'
    lead = 0
    if isinstance(segs[0], str):
        if segs[0].strip():
            return False
        lead = len(segs[0])
        segs = segs[1:]
    return len(segs) == 1 and isinstance(segs[0], Fld) and segs[0].numeric() and segs[0].conv in 'id' and lead + segs[0].width == 6


def framing_bad(c, segs, what):
    """segs: what one data-set added to the file"""
    bad = []
    lines = ssplitlines(mks(segs, True))
    head = [''.join(s) if all(isinstance(x, str) for x in s) else None for s in (segs_of(l) for l in lines[:2])]
    if not lines or head[0] is None or head[0].rstrip() != '    -1':
        bad.append((what + ': start tag', '%s: the block starts with %r' % (what, lines[:1]), content_loc(lines[0]) if lines else None))
    if len(lines) < 2 or head[1] is None or head[1][:6] != '%6d' % c.typ or head[1][6:7] != ('b' if c.binary else head[1][6:7]) or \
            (not c.binary and head[1][6:].strip()):
        bad.append((what + ': type line', '%s: the second line is %r' % (what, lines[1:2]), None))
    for l, t in ((lines[:1], 'start tag'), (lines[1:2], 'type line'), (lines[-1:] if not c.binary else [], 'end tag')):
        if l and maxwidth(l[0]) > 80:
            bad.append(('%s: long line' % c.typ, '%s: the %s has %d characters' % (what, t, maxwidth(l[0])), None))
    flat = segs_of(mks(segs, True))
    if not flat or not isinstance(flat[-1], str) or not flat[-1].endswith('    -1\n'):
        bad.append((what + ': end tag', '%s: the block ends with %r' % (what, flat[-1:]), None))
    elif not c.binary and len(flat) > 1 and not flat[-1].endswith('\n    -1\n'):
        bad.append((what + ': end tag line', '%s: the end tag is not on a line of its own: %r' % (what, flat[-2:]), None))
    body = lines[2:13] if c.binary else lines[2:-1]
    for i, l in enumerate(body):
        if taglike(l):
            bad.append(('%s: line like a tag' % c.typ, '%s: line %d (%r) may read as a tag' % (what, i + 3, l), content_loc(l)))
        if maxwidth(l) > 80:
            bad.append(('%s: long line' % c.typ, '%s: line %d may have %d characters' % (what, i + 3, maxwidth(l)), content_loc(l)))
    if not c.binary:
        for l in body:
            if any(isinstance(s, (Bin, BPart)) for s in segs_of(l)):
                bad.append((what + ': binary data', '%s: binary data in a text block' % what, None))
                break
    return bad[:6]


def added(old, new):
    """what was appended; None if the old content is not kept"""
    o, n = mks(old or [], True), mks(new or [], True)
    L = slen(o) if old else 0
    if not old:
        return segs_of(n)
    if slen(n) < L or segs_of(sslice(n, 0, L)) != segs_of(o):
        return None
    return segs_of(sslice(n, L, slen(n))) if slen(n) > L else []


@check('C02', 'abstract interpretation of the text written (framing, widths, tag-likeness of every line)',
       'One data-set adds exactly one start tag line, one type line, records of at most 80 columns none of which can read as a tag, and '
       'one end tag line behind the unchanged former content; several data-sets add the concatenation.', RT_NOTE, BASE)
def chk_c02(ctx):
    cs = list(all_rep(ctx)) + [c for t in TYPES for c in ctx.cases(t)]
    pre = ['    -1\n', '   164\n', '         1', 'SI units            ', '         1\n', '    -1\n']
    for c in cs:
        def fn(w, c=c):
            bad = []
            w.put(list(pre))
            old = content(w)
            u = w.uff()
            write_case(w, c, u=u)
            a = added(old, content(w))
            if a is None:
                return [('former content', 'writing %s changes what was in the file' % c.name, None)]
            bad += framing_bad(c, a, c.name)
            mid = content(w)
            write_case(w, c, c.make(), u=u)
            b = added(mid, content(w))
            if b is None:
                bad.append(('former content', 'writing %s again changes what was in the file' % c.name, None))
            elif b != a:
                bad.append(('second block', 'the second block of %s differs from the first' % c.name, None))
            return bad
        ctx.ob('framing of ' + c.name, fn)
    for loc in (0, 4, 5, 6, 9):
        def nloc(w, loc=loc):
            c = c2414g(1, 1, 2, [3, 3])
            d = c.make()
            d['dataset_location'] = loc
            u = w.uff()
            w.write(u, c15(2).make())
            old = content(w)
            e = w.raises(w.write, u, d)
            a = added(old, content(w))
            if a is None:
                return [('former content', 'writing 2414 with location %d changes what was in the file' % loc, None)]
            if e is not None and a:
                return [('left behind', 'writing 2414 with location %d fails and leaves %s' % (loc, short(a)), None)]
            return framing_bad(c, a, '2414 with location %d' % loc) if a else []
        ctx.ob('framing of 2414 with location %d' % loc, nloc)
    reps = [rep(ctx, t)[0] for t in TYPES] + BIN[:1]
    pairs = [(a, reps[(i + k) % len(reps)]) for i, a in enumerate(reps) for k in (1, 5)]
    for a, b in pairs:
        def several(w, a=a, b=b):
            if kw_of(a) != kw_of(b) and None not in (a.force_double, b.force_double):
                return []
            kw = dict(kw_of(a), **kw_of(b))
            u = w.uff()
            w.write(u, [a.make(), b.make(), a.make()], **kw)
            one = World(ctx.pkg, w.ip.dec)
            v = one.uff()
            exp = []
            for x in (a, b, a):
                one.write(v, x.make(), **kw)
            if content(w) != content(one):
                return [('several sets', 'a list of sets (%s, %s) is written differently from the sets one by one' % (a.name, b.name), None)]
            return index_bad(w, u, [gt(a), gt(b), gt(a)], '%s, %s, %s in a list' % (a.name, b.name, a.name), each=False)
        ctx.ob('list of %s, %s' % (a.name, b.name), several)
    for a, b in pairs:
        for pat in ('aa', 'aaa', 'aba', 'aabaa'):
            for mode in ('add', 'overwrite'):
                def again(w, a=a, b=b, pat=pat, mode=mode):
                    # one dictionary several times in a list
                    if 'b' in pat and kw_of(a) != kw_of(b) and None not in (a.force_double, b.force_double):
                        return []
                    kw = dict(kw_of(a), **(kw_of(b) if 'b' in pat else {}))
                    d = {'a': a.make(), 'b': b.make()}
                    u = w.uff()
                    w.write(u, [d[ch] for ch in pat], mode=mode, **kw)
                    one = World(ctx.pkg, w.ip.dec)
                    v = one.uff()
                    for ch in pat:
                        one.write(v, {'a': a, 'b': b}[ch].make(), **kw)
                    if content(w) != content(one):
                        return [('several sets', 'the dictionaries of %s and %s as %s in one list are written differently from the sets one by one' % (
                            a.name, b.name, pat), None)]
                    return index_bad(w, u, [gt({'a': a, 'b': b}[ch]) for ch in pat], '%s, %s as %s in a list' % (a.name, b.name, pat), each=False)
                ctx.ob('%s in one list, %s: %s, %s' % (pat, mode, a.name, b.name), again)


# ================================================ C17 freshness over histories
def history_ops():
    A, B, C, D = c15(2), BIN[0], c82(3), c164()

    def add(*cs, mode=None, lab):
        def op(w, u, st, k):
            ds = [tag(c.make(), k) for c in cs]
            kw = {'mode': mode} if mode else {}
            w.write(u, ds if len(ds) > 1 else ds[0], **kw)
            new = [(c.typ, fmt_of(c), c.expect(tag(c.full(), k))) for c in cs]
            return new if mode == 'overwrite' else st + new
        op.lab = lab
        return op

    def fail(w, u, st, k):
        if w.raises(w.write, u, {'type': 15}) is None:
            raise Bad('incomplete set', 'a data-set 15 without nodes is accepted', None)
        return st
    fail.lab = 'failed write'

    def faillist(w, u, st, k):
        d = tag(A.make(), k)
        if w.raises(w.write, u, [d, {'type': 58, 'binary': 1}]) is None:
            raise Bad('incomplete set', 'a data-set 58 without data is accepted', None)
        return st + [(15, 0, A.expect(tag(A.full(), k)))]
    faillist.lab = 'list whose second set fails'

    def failov(w, u, st, k):
        if w.raises(w.write, u, {'type': 82, 'nodes': [1]}, mode='overwrite') is None:
            raise Bad('incomplete set', 'a data-set 82 without trace number is accepted', None)
        return []
    failov.lab = 'failed overwrite'

    def badmode(w, u, st, k):
        if w.raises(w.write, u, A.make(), mode='append') is None:
            raise Bad('mode', "mode 'append' is accepted", None)
        return st
    badmode.lab = 'unknown mode'

    def refresh(w, u, st, k):
        w.meth(u, 'refresh')
        return st
    refresh.lab = 'refresh'

    def read(w, u, st, k):
        if st:
            w.read(u)
        else:
            w.raises(w.read, u)
        return st
    read.lab = 'read'

    def headers(w, u, st, k):
        if st:
            got = w.read(u, header_only=True)
            for i, e in enumerate(st):
                h = dict(e[2], x=None, data=None) if e[0] == 58 else e[2]
                for bad in diff(h, got if len(st) == 1 else got[i], w.ip, 'header of set %d' % i):
                    raise Bad(*bad)
        return st
    headers.lab = 'read headers'

    def badread(w, u, st, k):
        w.raises(w.read, u, len(st) + 2)
        return st
    badread.lab = 'read out of range'

    def unsup(w, u, st, k):
        w.write(u, {'type': 781})
        return st
    unsup.lab = 'unsupported set'
    return [add(A, lab='add 15'), add(B, lab='add 58b'), add(D, C, lab='add [164, 82]'), add(C, mode='overwrite', lab='overwrite 82'),
            add(B, A, mode='overwrite', lab='overwrite [58b, 15]'), fail, faillist, failov, badmode, refresh, read, badread, unsup, headers]


@check('C17', 'abstract interpretation of operation histories against a ground-truth list of sets (typestate of the index)',
       'After every history of writes, overwrites, failing writes, reads and refreshes, the number, types and formats of the sets and '
       'what read_sets returns are those of the file, both for the same object and for a new one, whichever is asked first.',
       'Histories up to length 2 over 14 operations (quick), 3 (thorough), from a missing and from an existing file.', BASE)
def chk_c17(ctx):
    many(ctx)
    ops = history_ops()
    import itertools
    firsts = ('get_n_sets', 'get_set_types', 'get_set_formats', 'read')

    def run(hist, exist, first, ask):
        def fn(w):
            st = []
            if exist:
                c = c2411(2)
                w.put(c.block(c.full()))
                st = [gt(c)]
            u = w.uff()
            for k, op in enumerate(hist):
                st = op(w, u, st, k)
                if ask:
                    n = w.meth(u, 'get_n_sets')
                    if n != len(st):
                        return [('number of sets', 'after %s: get_n_sets() is %r, the file holds %d' % (
                            ', '.join(o.lab for o in hist[:k + 1]), n, len(st)), None)]
            what = 'after ' + ', '.join(o.lab for o in hist)
            bad = []
            if first == 'read':
                if st:
                    got = w.read(u)
                    n = 1 if isinstance(got, dict) else len(got)
                    if n != len(st):
                        return [('sets read', '%s: read_sets() gives %d sets, the file holds %d' % (what, n, len(st)), None)]
                    for i, e in enumerate(st):
                        bad += diff(e[2], got if n == 1 else got[i], w.ip, '%s: set %d' % (what, i))
            else:
                r = norm(w.meth(u, first))
                exp = {'get_n_sets': len(st), 'get_set_types': [e[0] for e in st], 'get_set_formats': [e[1] for e in st]}[first]
                if not same(r, exp):
                    return [(first, '%s: %s() is %s, expected %s' % (what, first, short(r), exp), None)]
            ex = w.file() is not None
            bad += index_bad(w, u, st, what, read=ex, each=False) if ex else []
            if ex:
                bad += index_bad(w, w.uff(), st, 'a new object ' + what, read=not bad, each=False)
            return bad
        ctx.ob('%s%s, asking %s' % ('existing file, ' if exist else '', '; '.join(o.lab for o in hist), first), fn)
    n = 0
    for L in (1, 2, 3) if ctx.deep else (1, 2):
        for hist in itertools.product(ops, repeat=L):
            n += 1
            run(hist, n % 2, firsts[n % 4], n % 3 == 0)
            if L == 1:
                for f in firsts:
                    run(hist, (n + 1) % 2, f, 0)
    if not ctx.deep:
        w8 = [0, 3, 5, 7, 9, 13]
        for hist in itertools.product([ops[i] for i in w8], repeat=3):
            n += 1
            run(hist, n % 2, firsts[(n // 2) % 4], n % 5 == 0)


# ==================================================== C18 refresh after changes
@check('C18', 'abstract interpretation of refresh over file states before and after an external change',
       'refresh() forgets the former index whatever became of the file: gone, empty, without blocks, other sets; it returns and '
       'get_status() tells whether the file could be indexed; reading a missing file raises.',
       'All ordered pairs of 8 file states.', BASE)
def chk_c18(ctx):
    def state(name):
        A, B, C = c15(2), BIN[0], c82(3)
        return {'missing': (None, []), 'empty': ([], []), 'text only': (['no block in here\n'], []),
                'start tag only': (['    -1\n', '    15\n'], []),
                'one set': (A.block(A.full()), [gt(A)]), 'binary set': (B.block(B.full()), [gt(B)]),
                'three sets': (C.block(C.full()) + B.block(B.full()) + A.block(A.full()), [gt(C), gt(B), gt(A)]),
                'two sets': (A.block(A.full()) + C.block(C.full()), [gt(A), gt(C)])}[name]
    names = ('missing', 'empty', 'text only', 'start tag only', 'one set', 'binary set', 'three sets', 'two sets')

    def put(w, segs):
        if segs is None:
            w.ip.fs.pop(PATH, None)
        else:
            w.put(segs)

    def bad_state(w, u, segs, exp, what):
        bad = []
        st = w.meth(u, 'get_status')
        if st is not (segs is not None):
            bad.append(('status', '%s: get_status() is %r' % (what, st), None))
        fe = w.meth(u, 'file_exists')
        if fe is not (segs is not None):
            bad.append(('file_exists', '%s: file_exists() is %r' % (what, fe), None))
        n = w.meth(u, 'get_n_sets')
        ty, fo = norm(w.meth(u, 'get_set_types')), norm(w.meth(u, 'get_set_formats'))
        if n != len(exp) or not same(ty, [e[0] for e in exp]) or not same(fo, [e[1] for e in exp]):
            bad.append(('index', '%s: %r sets of types %s, formats %s, expected %d of %s, %s' % (
                what, n, ty, fo, len(exp), [e[0] for e in exp], [e[1] for e in exp]), None))
        if segs is None:
            for a in ((), (0,), ([0],)):
                if w.raises(w.read, u, *a) is None:
                    bad.append(('read of a missing file', '%s: read_sets%r does not raise' % (what, a), None))
        elif not exp:
            got = w.read(u)
            if not same(got, []):
                bad.append(('read of no sets', '%s: read_sets() is %s' % (what, short(got)), None))
            if w.raises(w.read, u, 0) is None:
                bad.append(('read of no sets', '%s: read_sets(0) does not raise' % what, None))
        elif not bad:
            bad += index_bad(w, u, exp, what)
            if w.raises(w.read, u, len(exp)) is None:
                bad.append(('out of range', '%s: read_sets(%d) does not raise' % (what, len(exp)), None))
        return bad
    for a in names:
        def first(w, a=a):
            segs, exp = state(a)
            put(w, segs)
            u = w.uff()
            return bad_state(w, u, segs, exp, 'new object, file: ' + a)
        ctx.ob('new object, file: ' + a, first)
        for b in names:
            for used in (0, 1):
                def change(w, a=a, b=b, used=used):
                    segs, exp = state(a)
                    put(w, segs)
                    u = w.uff()
                    if used:
                        w.raises(w.read, u)
                    segs, exp = state(b)
                    put(w, segs)
                    r = w.meth(u, 'refresh')
                    bad = []
                    if r is not (segs is not None):
                        bad.append(('refresh returns', 'file %s, then %s: refresh() returns %r' % (a, b, r), None))
                    return bad + bad_state(w, u, segs, exp, 'file %s, then %s' % (a, b))
                ctx.ob('file %s%s, then %s' % (a, ', read' if used else '', b), change)

    def again(w):
        u = w.uff()
        bad = []
        if w.meth(u, 'get_status') is not False:
            bad.append(('status', 'get_status() of a missing file is not False', None))
        c = c15(2)
        write_case(w, c, u=u)
        bad += index_bad(w, u, [gt(c)], 'first write to a missing file')
        del w.ip.fs[PATH]
        if w.meth(u, 'refresh') is not False:
            bad.append(('refresh returns', 'refresh() of a removed file is not False', None))
        c = c82(3)
        write_case(w, c, u=u)
        return bad + index_bad(w, u, [gt(c)], 'write after the file was removed')
    ctx.ob('missing, written, removed, written', again)

    # a file that appears after the object was made: the object is not refreshed yet, so that whatever is asked first does it
    for b in ('one set', 'binary set', 'two sets', 'three sets'):
        for first in ('read', 'read last', 'read list', 'headers', 'get_n_sets', 'get_set_types', 'get_set_formats'):
            def late(w, b=b, first=first):
                segs, exp = state(b)
                u = w.uff()
                w.put(segs)
                n, what = len(exp), 'file appears (%s), %s first' % (b, first)
                bad = []
                if first == 'headers':
                    got = w.meth(u, 'read_sets', header_only=True)
                    k = 1 if isinstance(got, dict) else len(got)
                    if k != n:
                        return [('late file', '%s: %d sets' % (what, k), None)]
                elif first.startswith('read'):
                    a = {'read': (), 'read last': (n - 1,), 'read list': (list(range(n)),)}[first]
                    got = w.read(u, *a)
                    got = [got] if isinstance(got, dict) else got
                    want = exp[n - 1:] if first == 'read last' else exp
                    if len(got) != len(want):
                        return [('late file', '%s: %d sets, expected %d' % (what, len(got), len(want)), None)]
                    for i, e in enumerate(want):
                        bad += diff(e[2], got[i], w.ip, '%s: set %d' % (what, i))
                else:
                    w.meth(u, first)
                return bad + bad_state(w, u, segs, exp, what)
            ctx.ob('file appears (%s), %s first' % (b, first), late)


# ======================================================== C19 tag recognition
def eols(segs, eol):
    return [s.replace('\n', eol) if isinstance(s, str) else s for s in segs]


def padded(segs, start=True, end=True):
    """tags filled with blanks up to column 80"""
    out = list(segs)
    pad = '    -1' + ' ' * 74
    for i, s in enumerate(out):
        if isinstance(s, str):
            if i == 0 and start and s.startswith('    -1\n'):
                out[i] = s = pad + s[6:]
            if i == len(out) - 1 and end and s.endswith('    -1\n'):
                out[i] = s = s[:-7] + pad + '\n'
    return out


@check('C19', 'abstract interpretation of the index scan over every documented tag form and its near misses',
       'A block is found for every start and end tag of the documented forms (LF, CR, CRLF, blanks to column 80, end of file) and for '
       'nothing else; its extent is exactly the block; text between blocks and an unterminated block are ignored.',
       'Contents are unknown; forms of tags and texts around the blocks are enumerated.', BASE)
def chk_c19(ctx):
    A, B, C, D = c15(3), BIN[0], c82(3), c58(3, 0, 1, 1, 0)
    groups = [[A], [B], [D], [A, C], [B, A], [A, B], [B, BIN[1]], [C, B, A, D]]
    forms = [('LF', lambda b, c: b), ('CRLF', lambda b, c: eols(b, '\r\n')), ('CR', lambda b, c: b if c.binary else eols(b, '\r')),
             ('padded', lambda b, c: padded(b)), ('padded start', lambda b, c: padded(b, end=False)),
             ('padded end', lambda b, c: padded(b, start=False)), ('padded CRLF', lambda b, c: eols(padded(b), '\r\n'))]
    for g in groups:
        for lab, f in forms:
            for eof in (False, True):
                def fn(w, g=g, f=f, eof=eof, lab=lab):
                    segs = []
                    for c in g:
                        segs += f(segs_of(mks(c.block(c.full()), True)), c)
                    if eof:
                        segs[-1] = segs[-1].rstrip('\r\n')
                    w.put(segs)
                    return index_bad(w, w.uff(), [gt(c) for c in g], '%s tags of %s%s' % (lab, [c.typ for c in g], ', no newline at the end' if eof else ''))
                ctx.ob('%s tags of %s%s' % (lab, [c.name for c in g], ' at the end of file' if eof else ''), fn)
    noise = [('text', ['some text\n']), ('empty lines', ['\n', '\n']), ('a number', ['         7\n']),
             ('-1 in other columns', ['        -1\n', '-1\n', '  -1\n', '     -1\n']),
             ('text before -1', ['x    -1\n']), ('-1 and text', ['    -1 x\n']), ('-1 digits', ['    -10\n', '    -15\n']),
             ('blanks behind -1, too few', ['    -1   \n']), ('unknown text', [Fld(t_('noise', 60), 's', 60, None, True), '\n']),
             ('79 columns', ['    -1' + ' ' * 73 + 'x\n'])]
    for lab, ns in noise:
        for pos in (0, 1, 2):
            for cs in ([A, C], [B, A]):
                def fn(w, ns=ns, pos=pos, lab=lab, cs=cs):
                    blocks = [c.block(c.full()) for c in cs]
                    segs = []
                    for i in range(3):
                        if i == pos:
                            segs += ns
                        if i < 2:
                            segs += blocks[i]
                    w.put(segs)
                    return index_bad(w, w.uff(), [gt(c) for c in cs], '%s %s the blocks' % (lab, ('before', 'between', 'behind')[pos]))
                ctx.ob('%s %s %s' % (lab, ('before', 'between', 'behind')[pos], [c.typ for c in cs]), fn)
    # inside a block: data that ends with -1
    for lab, ln in (('integers', '         3         7        -1\n'), ('one integer', '        -1\n'), ('first integer', '        -1         4\n'),
                    ('narrow', '         1    -1\n'), ('behind text', 'abcd    -1\n'), ('longer', '    -12\n')):
        def fn(w, ln=ln, lab=lab):
            segs = ['    -1\n', '   999\n', 'first\n', ln, ln, 'last\n', '    -1\n'] + A.block(A.full())
            w.put(segs)
            return index_bad(w, w.uff(), [(999, 0, {'type': 999}), gt(A)], 'data line %r' % ln)
        ctx.ob('data lines that end with -1: ' + lab, fn)
    for n in (1, 2, 3, 7, 9):
        def fn(w, n=n):
            c = c82(n)
            d = c.full()
            d['nodes'] = Arr([-1 if i == n - 1 or i == 0 else i for i in range(n)], None, 'i8')
            w.put(c.block(d) + A.block(A.full()))
            e = c.expect(d)
            return index_bad(w, w.uff(), [(82, 0, e), gt(A)], 'nodes of 82 that are -1')
        ctx.ob('nodes that are -1, n=%d' % n, fn)
    # blocks at every position relative to the end of a buffer
    plain = ['    -1\n', '   999\n', 'first\n', '    -1\n']
    bin58 = ['    -1\n', '    58b     1     2          11          16     0     0           0           0\n'] + ['x\n'] * 11 + \
        ['0123456789abcdef    -1\n']
    for k in sorted(set([512, 4096, 8192, 65536] + ctx.buffers())):
        for lab, blk, e in (('text', plain, (999, 0)), ('binary', bin58, (58, 1))):
            ln = sum(map(len, blk))
            for j in range(0, ln + 2) if ctx.deep or k not in (512, 4096, 8192, 65536) else range(0, ln + 2, 5):
                def fn(w, k=k, j=j, blk=blk, e=e, lab=lab):
                    n = k - j
                    if n < 2:
                        return []
                    fill = 'x' * (n % 80 - 1 if n % 80 else 79) + '\n'
                    fill += ('y' * 79 + '\n') * ((n - len(fill)) // 80)
                    w.put([fill] + blk + blk + plain)
                    u = w.uff()
                    ty, fo = norm(w.meth(u, 'get_set_types')), norm(w.meth(u, 'get_set_formats'))
                    if not same(ty, [e[0], e[0], 999]) or not same(fo, [e[1], e[1], 0]):
                        return [('blocks far into the file', 'two %s blocks and another behind %d bytes of text: types %s, formats %s' % (
                            lab, n, short(ty), short(fo)), None)]
                    return []
                ctx.ob('%s block at %d-%d' % (lab, k, j), fn)
        for m in (1, 2, 3, 5):
            def far(w, k=k, m=m):
                # tags are further apart than several buffers, inside and outside of blocks
                fill = lambda n: ['x' * (n % 80 - 1 if n % 80 else 79) + '\n' + ('y' * 79 + '\n') * (n // 80)]
                w.put(fill(m * k + 3) + plain[:3] + fill(m * k + 1) + plain[3:] + fill(m * k) + bin58 + plain)
                u = w.uff()
                ty, fo = norm(w.meth(u, 'get_set_types')), norm(w.meth(u, 'get_set_formats'))
                if not same(ty, [999, 58, 999]) or not same(fo, [0, 1, 0]):
                    return [('tags far apart', 'blocks with %d bytes in front, between and in them: types %s, formats %s' % (
                        m * k, short(ty), short(fo)), None)]
                return []
            ctx.ob('tags %d x %d apart' % (m, k), far)
    # unterminated last block
    for tail in (['    -1\n'], ['    -1\n', '    15\n', 'x\n'], ['    -1'], ['    -1\n', '    58b', '     1     2\n']):
        def fn(w, tail=tail):
            w.put(A.block(A.full()) + B.block(B.full()) + tail)
            return index_bad(w, w.uff(), [gt(A), gt(B)], 'an unterminated block %r behind' % tail)
        ctx.ob('unterminated %r' % tail, fn)
        for cs in ([A], [C, A, C], [A, C, D, C]) if ctx.deep or len(tail) < 3 else ([A], [C, A, C]):
            def fe(w, tail=tail, cs=cs):
                w.put([x for c in cs for x in c.block(c.full())] + tail)
                return index_bad(w, w.uff(), [gt(c) for c in cs], 'an unterminated block %r behind %d others' % (tail, len(cs)))
            ctx.ob('unterminated %r behind %d' % (tail, len(cs)), fe)
    # blocks without a readable type do not hide the others
    for bad_t in ('      \n', 'abcdef\n', '    xx\n'):
        def fn(w, bad_t=bad_t):
            w.put(A.block(A.full()) + ['    -1\n', bad_t, 'text\n', '    -1\n'] + C.block(C.full()))
            u = w.uff()
            bad = []
            if w.meth(u, 'get_n_sets') != 3:
                return [('number of sets', 'a block with type line %r is not counted' % bad_t, None)]
            ty = norm(w.meth(u, 'get_set_types'))
            if not (ty[0] == 15 and ty[2] == 82):
                bad.append(('set types', 'types %s beside a block with type line %r' % (ty, bad_t), None))
            return bad + diff(A.expect(A.full()), w.read(u, 0), w.ip, 'set 0') + diff(C.expect(C.full()), w.read(u, 2), w.ip, 'set 2')
        ctx.ob('type line %r' % bad_t, fn)

    def adjacent(w):
        c, d = c15(1), c164()
        w.put(c.block(c.full()) + ['    -1\n', '    -1\n'] + d.block(d.full()))
        u = w.uff()
        if w.meth(u, 'get_n_sets') != 3:
            return [('number of sets', 'an empty block is not counted', None)]
        return diff(c.expect(c.full()), w.read(u, 0), w.ip, 'set 0') + diff(d.expect(d.full()), w.read(u, 2), w.ip, 'set 2')
    ctx.ob('empty block between', adjacent)
    for up in ('b', 'B'):
        def fb(w, up=up):
            segs = segs_of(mks(B.block(B.full()), True))
            segs[0] = segs[0].replace('    58b', '    58' + up)
            w.put(segs + A.block(A.full()))
            return index_bad(w, w.uff(), [gt(B), gt(A)], '58%s' % up)
        ctx.ob('binary mark %s' % up, fb)


# ======================================================= C20 selection, order
@check('C20', 'abstract interpretation of the selection of sets over files of up to four sets',
       'read_sets(k) returns exactly the k-th set, a list of indices the sets in the order asked, None all sets in file order; one set '
       'comes as a dictionary, any other number as a list; an index outside the file raises; lists are written in their order.',
       'Every index and every index list up to length 3 for files of 1 to 4 sets.', BASE)
def chk_c20(ctx):
    many(ctx)
    import itertools
    pool = [c15(2), BIN[0], c82(3), c15(1)]
    for n in (1, 2, 3, 4):
        cs = pool[:n]

        def mk(w, cs=cs):
            segs, exp = [], []
            for k, c in enumerate(cs):
                d = tag(c.full(), k)
                segs += c.block(d)
                exp.append(c.expect(d))
            w.put(segs)
            return w.uff(), exp

        def one(w, mk=mk, n=n):
            u, exp = mk(w)
            bad = []
            for k in range(n):
                got = w.read(u, k)
                if isinstance(got, list):
                    bad.append(('one set', 'read_sets(%d) of %d sets gives a list' % (k, n), None))
                bad += diff(exp[k], got, w.ip, 'read_sets(%d) of %d' % (k, n))
                bad += diff(exp[k], w.read(u, [k]), w.ip, 'read_sets([%d]) of %d' % (k, n))
                bad += diff(exp[k], w.read(u, setn=k), w.ip, 'read_sets(setn=%d) of %d' % (k, n))
                for a in (NpInt(k), [NpInt(k)]):
                    bad += diff(exp[k], w.read(u, a), w.ip, 'read_sets(%r) of %d' % (a, n))
            for k in (-1, n, n + 1, -n, -n - 1, 99):
                if w.raises(w.read, u, k) is None:
                    bad.append(('out of range', 'read_sets(%d) of %d sets does not raise' % (k, n), None))
                if w.raises(w.read, u, [0, k]) is None:
                    bad.append(('out of range', 'read_sets([0, %d]) of %d sets does not raise' % (k, n), None))
            got = w.read(u, [])
            if not same(got, []):
                bad.append(('no set', 'read_sets([]) is %s' % short(got), None))
            return bad
        ctx.ob('single sets of %d' % n, one)

        def odd(w, mk=mk, n=n):
            # selections that are no number and no list: an error, or the sets they name; never another set
            u, exp = mk(w)
            bad = []
            for a, e in (((), []), ('', []), ('0', None), (0.5, None), ([0.5], None), (n - 0.5, None), (-0.5, None), ([[]], None),
                         ([None], None), ((0,), [0]), ((n - 1, 0), [n - 1, 0]), ((n,), None), ('a', None), ([''], None), ({}, [])):
                got = []

                def rd(a=a):
                    got.append(w.read(u, a))
                if w.raises(rd) is not None:
                    continue
                got = got[0]
                if e == [] and same(got, []):
                    continue
                if not e:
                    bad.append(('odd selection', 'read_sets(%r) of %d sets gives %s' % (a, n, short(got, 60)), None))
                    continue
                got = [got] if len(e) == 1 and not isinstance(got, list) else got
                if not isinstance(got, list) or len(got) != len(e):
                    bad.append(('odd selection', 'read_sets(%r) of %d sets gives %s' % (a, n, short(got, 60)), None))
                    continue
                for k, g in zip(e, got):
                    bad += diff(exp[k], g, w.ip, 'read_sets(%r), set %d' % (a, k))
            return bad[:4]
        ctx.ob('odd selections of %d' % n, odd)
        lists = [l for L in ((2, 3) if n > 1 else (2,)) for l in itertools.product(range(n), repeat=L)]
        if not ctx.deep:
            lists = thin(lists, 20)

        def sel(w, mk=mk, lists=lists, n=n):
            u, exp = mk(w)
            bad = []
            for l in lists:
                got = w.read(u, list(l))
                if not isinstance(got, list) or len(got) != len(l):
                    bad.append(('list of sets', 'read_sets(%s) of %d sets gives %s' % (list(l), n, short(got, 60)), None))
                    continue
                for k, g in zip(l, got):
                    bad += diff(exp[k], g, w.ip, 'read_sets(%s), index %d' % (list(l), k))
                if len(bad) > 3:
                    break
            return bad
        ctx.ob('lists of indices of %d' % n, sel)

        def everything(w, mk=mk, n=n):
            u, exp = mk(w)
            bad = []
            for a in ((), (None,)):
                got = w.read(u, *a)
                if n == 1:
                    bad += diff(exp[0], got, w.ip, 'read_sets() of one set')
                    continue
                if not isinstance(got, list) or len(got) != n:
                    return [('all sets', 'read_sets() of %d sets gives %s' % (n, short(got, 60)), None)]
                for k in range(n):
                    bad += diff(exp[k], got[k], w.ip, 'read_sets() of %d, set %d' % (n, k))
            return bad
        ctx.ob('all sets of %d' % n, everything)

        def order(w, cs=cs, n=n):
            bad = []
            for mode in ('add', 'overwrite'):
                for perm in itertools.permutations(range(n)):
                    w.ip.fs.pop(PATH, None)
                    u = w.uff()
                    ds = [tag(cs[k].make(), k) for k in perm]
                    w.write(u, ds, mode=mode)
                    got = w.read(u)
                    got = got if n > 1 else [got]
                    if len(got) != n:
                        return [('order', '%d sets written with mode %s, %d read' % (n, mode, len(got)), None)]
                    for k, g in zip(perm, got):
                        bad += diff(cs[k].expect(tag(cs[k].full(), k)), g, w.ip, 'sets written in the order %s, mode %s' % (perm, mode))
                    if not ctx.deep and perm[0] == n - 1:
                        break
            return bad[:4]
        ctx.ob('order of %d sets written' % n, order)

    def empty(w):
        u = w.uff()
        bad = []
        for mode in ('add', 'overwrite'):
            if w.raises(w.write, u, [], mode=mode) is None:
                bad.append(('empty list', 'write_sets([]) does not raise', None))
        c = c15(1)
        w.put(c.block(c.full()))
        before = content(w)
        for mode in ('add', 'overwrite'):
            w.raises(w.write, u, [], mode=mode)
        if content(w) != before:
            bad.append(('empty list', 'write_sets([]) changes the file', None))
        return bad
    ctx.ob('nothing to write', empty)

    def single(w):
        c = c15(2)
        a, b = w, World(ctx.pkg, w.ip.dec)
        a.write(a.uff(), c.make())
        b.write(b.uff(), [c.make()])
        return [] if content(a) == content(b) else [('one set', 'a dictionary and a list of one dictionary are written differently', None)]
    ctx.ob('dictionary or list of one', single)


# =========================================================== C21 file safety
@check('C21', 'effect analysis by abstract interpretation (files opened, written, removed) for every type and mode',
       "Mode 'add' keeps the former content and appends, 'overwrite' replaces it by the sets of the call, any other mode raises and leaves "
       'the file; reading opens nothing for writing; no other file is touched.', RT_NOTE, BASE)
def chk_c21(ctx):
    other = ['another file\n']

    def effects(w, n0, writes):
        bad = []
        for e in w.ip.trace[n0:]:
            if e[0] == 'open':
                path, mode = e[2], e[3]
                if path != PATH:
                    bad.append(('other file', 'opens %r' % path, e[1]))
                elif not writes and any(c in mode for c in 'wax+'):
                    bad.append(('opened for writing', 'reading opens the file with mode %r' % mode, e[1]))
            elif e[0] in ('remove', 'rename'):
                bad.append((e[0], '%s of %r' % (e[0], e[2]), e[1]))
            elif e[0] == 'truncate' and (e[2] != PATH or not writes):
                bad.append(('truncate', 'truncates %r' % e[2], e[1]))
            elif e[0] == 'ext':
                bad.append(('system call', 'calls %s' % e[2], e[1]))
        if w.ip.fs.get('work/other.uff') != other:
            bad.append(('other file', 'another file is changed', None))
        for p in w.ip.fs:
            if p not in (PATH, 'work/other.uff'):
                bad.append(('other file', 'creates %r' % p, None))
        return bad
    for c in all_rep(ctx):
        def fn(w, c=c):
            w.ip.fs['work/other.uff'] = list(other)
            u = w.uff()
            old = c2411(1)
            pre = old.block(old.full()) + ['trailing text\n']
            bad = []
            w.put(pre)
            old_c = content(w)
            n0 = len(w.ip.trace)
            write_case(w, c, u=u)
            a = added(old_c, content(w))
            if not a:
                bad.append(('add', "mode 'add' does not append %s to the former content" % c.name, None))
            write_case(w, c, u=u, mode='add')
            if added(old_c, content(w)) != segs_of(mks((a or []) * 2, True)):
                bad.append(('add', "mode 'add' does not append %s" % c.name, None))
            write_case(w, c, u=u, mode='overwrite')
            if content(w) != a:
                bad.append(('overwrite', "mode 'overwrite' of %s leaves %s" % (c.name, short(content(w)[:6])), None))
            bad += index_bad(w, u, [gt(c)], 'overwritten with ' + c.name, read=False)
            w.put(pre)
            kw = kw_of(c)
            w.write(u, [c.make(), c.make()], mode='overwrite', **kw)
            if content(w) != segs_of(mks((a or []) * 2, True)):
                bad.append(('overwrite', "mode 'overwrite' of a list of %s does not leave exactly the list" % c.name, None))
            return bad + effects(w, n0, True)
        ctx.ob('modes: ' + c.name, fn)

        for last in ('', '\r', '\r\n', '\n', ' ' * 74, 'padded\n', 'text'):
            for old in (c2411(1), BIN[0]):
                def app(w, c=c, last=last, old=old):
                    w.ip.fs['work/other.uff'] = list(other)
                    s = segs_of(mks(old.block(old.full()), True))
                    assert s[-1].endswith('    -1\n')
                    s[-1] = s[-1][:-1] + {'padded\n': ' ' * 74 + '\n', 'text': '\ntext'}.get(last, last)
                    w.put(s)
                    old_c = content(w)
                    u = w.uff()
                    n0 = len(w.ip.trace)
                    write_case(w, c, u=u)
                    if added(old_c, content(w)) is None:
                        return [('add', "mode 'add' of %s does not keep the former content, which ends with %r" % (c.name, last), None)]
                    return index_bad(w, u, [gt(old), gt(c)], 'file ending with %r after adding %s' % (s[-1][-12:], c.name),
                                     each=False) + effects(w, n0, True)
                ctx.ob('add %s to a %s ending with %r' % (c.name, old.name, last[:10]), app)

        for former in ('', 'a', '\n', 'ab\n', '\r\n', '    -1\n', 'a\nb\n', 'x' * 9, 'text\n' * 3):
            def tiny(w, c=c, former=former):
                w.put([former])
                old_c = content(w)
                u = w.uff()
                write_case(w, c, u=u)
                if former and added(old_c, content(w)) is None:
                    return [('add', "mode 'add' of %s does not keep the former content %r" % (c.name, former), None)]
                return []
            ctx.ob('add %s to %r' % (c.name, former), tiny)

        def rd(w, c=c):
            w.ip.fs['work/other.uff'] = list(other)
            w.put(c.block(c.full()))
            before = content(w)
            n0 = len(w.ip.trace)
            u = w.uff()
            for m in ('refresh', 'get_n_sets', 'get_set_types', 'get_set_formats', 'get_status', 'get_file_name', 'file_exists',
                      'get_supported_sets', 'read_sets'):
                w.meth(u, m)
            w.read(u, 0, header_only=True)
            w.raises(w.read, u, 3)
            bad = effects(w, n0, False)
            if content(w) != before:
                bad.append(('reading changes', 'reading changes the file', None))
            return bad
        ctx.ob('reading leaves the file: ' + c.name, rd)
    for mode in ('append', '', 'w', 'replace', 'a', 'adds', 'over', 'r', 'x'):
        def fm(w, mode=mode):
            w.ip.fs['work/other.uff'] = list(other)
            c = c15(2)
            bad = []
            u = w.uff()
            for ds in (c.make(), [c.make(), c.make()]):
                if w.raises(w.write, u, ds, mode=mode) is None:
                    bad.append(('unknown mode', 'mode %r is accepted' % mode, None))
            if w.file() is not None:
                bad.append(('unknown mode', 'mode %r creates the file' % mode, None))
            w.put(c.block(c.full()))
            before = content(w)
            if w.raises(w.write, u, c.make(), mode=mode) is None or content(w) != before:
                bad.append(('unknown mode', 'mode %r changes the file' % mode, None))
            return bad
        ctx.ob('mode %r' % mode, fm)

    def prep(w):
        w.ip.fs['work/other.uff'] = list(other)
        n0 = len(w.ip.trace)
        for t in TYPES:
            w.call('prepare_%d' % t) if t not in (2429, 2467) else None
        w.uff('work/none.uff')
        return effects(w, n0, False)
    ctx.ob('preparing touches no file', prep)

    def nonexist(w):
        u = w.uff('work/none.uff')
        bad = []
        for m in ('refresh', 'get_n_sets', 'get_set_types', 'get_set_formats', 'get_status'):
            w.meth(u, m)
        w.raises(w.meth, u, 'read_sets')
        if 'work/none.uff' in w.ip.fs:
            bad.append(('created', 'asking about a missing file creates it', None))
        return bad
    ctx.ob('asking about a missing file', nonexist)


# ====================================================== C22-C24 failing writes
def broken(c):
    """data-sets of the type that cannot be written: (label, dictionary)"""
    out = []
    if c.typ == 2412:
        for fe in c.req:
            for k in sorted(c.make()[fe][0]):
                if k in ('num_nodes', 'fe_descriptor'):
                    continue
                d = c.make()
                d[fe] = [dict(e) for e in d[fe]]
                del d[fe][-1][k]
                out.append(('without %s of an element %s' % (k, fe), d))
        return out
    for k in c.req:
        if k in c.opt or k == 'type' or c.typ == 55 and k in ('r4', 'r5', 'r6'):
            continue
        d = c.make((k,))
        out.append(('without %s' % k, d))
    for k in list(c.req)[-3:]:
        d = c.make()
        v = d[k]
        if isinstance(v, Arr) and v.shape and v.dt in ('f8', 'i8', 'c16'):
            d[k] = Arr(v.elems()[:-1] + ['text'], v.shape, 'O')
            out.append(('text in %s' % k, d))
        elif isinstance(v, Sym) and v.kind in ('int', 'float'):
            d[k] = 'text'
            out.append(('%s is text' % k, d))
    return out


def prior():
    c = c82(2)
    return c, c.block(tag(c.full(), 'old'))


@check('C22', 'abstract interpretation of failing writes: missing or malformed values, and an I/O error at every write',
       'A write that raises leaves in the file exactly what was there before the failing data-set (nothing, for overwrite), for every '
       'required key left out, malformed value, and every point at which the system may report an error.', RT_NOTE, BASE)
def chk_c22(ctx):
    def after(w, u, before, what, exp, closed=True):
        bad = []
        if content(w) != before:
            a = added(before, content(w))
            bad.append(('left behind', '%s leaves %s in the file' % (what, 'part of the data-set, %s,' % short(a, 80) if a else
                                                                    'other content'), None))
            return bad
        if before is not None:
            return bad + index_bad(w, u, exp, 'after ' + what, each=False)
        return bad
    for c in all_rep(ctx):
        for lab, d in broken(c):
            def fn(w, c=c, lab=lab, d=d):
                p, segs = prior()
                w.put(segs)
                before = content(w)
                exp = [(82, 0, p.expect(tag(p.full(), 'old')))]
                u = w.uff()
                e = w.raises(w.write, u, snap(d), **kw_of(c))
                if e is None:
                    if lab.startswith('without'):
                        return [('%s: accepted %s' % (c.typ, lab), '%s %s is accepted' % (c.name, lab), None)]
                    return []
                bad = after(w, u, before, '%s %s' % (c.name, lab), exp)
                e = w.raises(w.write, u, [tag(p.make(), 'new'), snap(d), p.make()], **kw_of(c))
                if e is None:
                    bad.append(('list accepted', 'a list with %s %s is accepted' % (c.name, lab), None))
                new = [(82, 0, p.expect(tag(p.full(), 'new')))]
                bad += index_bad(w, u, exp + new, 'after a list whose second set, %s %s, fails' % (c.name, lab), each=False)
                e = w.raises(w.write, u, snap(d), mode='overwrite', **kw_of(c))
                if content(w):
                    bad.append(('left behind by overwrite', 'overwriting with %s %s leaves %s' % (c.name, lab, short(content(w)[:3])), None))
                c2 = c164()
                write_case(w, c2, u=u)
                return bad + index_bad(w, u, [gt(c2)], 'a later write after %s %s' % (c.name, lab), each=False)
            ctx.ob('%s %s' % (c.name, lab), fn)
    faults(ctx, 'write', after)


def count_io(ctx, c, setup, run):
    w = World(ctx.pkg)
    st = setup(w)
    n0 = w.ip.nio
    run(w, st)
    return w.ip.nio - n0


def faults(ctx, kind, after):
    reps = [rep(ctx, t)[0] for t in TYPES] + BIN
    for c in reps:
        for mode in ('add', 'overwrite'):
            try:
                w = World(ctx.pkg)
                p, segs = prior()
                w.put(segs)
                u = w.uff()
                n0 = w.ip.nio
                write_case(w, c, u=u, mode=mode)
                n = w.ip.nio - n0
            except (PyExc, Undecided, Diverges, Missing):
                n = 12
            pts = range(n) if ctx.deep or n <= 12 else sorted(set(list(range(5)) + [n // 2] + list(range(n - 6, n))))
            # full: from then on nothing can be written
            for i, full in [(i, 0) for i in pts] + [(i, 1) for i in (pts if ctx.deep else list(pts)[1::3] + list(pts)[-3:])]:
                def fn(w, c=c, i=i, mode=mode, full=full):
                    p, segs = prior()
                    w.put(segs)
                    before = content(w)
                    u = w.uff()
                    n0 = w.ip.nio
                    hit = []

                    def fault(j, what, ip, n0=n0):
                        if j == n0 + i or full and j > n0 + i and what in ('write', 'close', 'flush'):
                            hit.append(what)
                            return True
                        return False
                    w.ip.fault = fault
                    e = w.raises(write_case, w, c, None, u, mode)
                    w.ip.fault = None
                    if not hit:
                        return []
                    what = 'an error of %s%s while writing %s with mode %s' % (hit[0], ' and of every write after it' if full else '', c.name, mode)
                    return judge(w, u, c, mode, e, hit[0], before, p, what, kind)
                ctx.ob('I/O error %d%s of %s, %s' % (i, ' and later' if full else '', c.name, mode), fn)


def over(trace):
    """did the fault come after the data-set was written and its handle closed?"""
    fi = max(i for i, e in enumerate(trace) if e[0] == 'fault')
    modes, live, closed = {}, set(), False
    for i, e in enumerate(trace[:fi]):
        if e[0] == 'open' and any(c in e[3] for c in 'wax+'):
            modes[e[4]] = e[3]
            live.add(e[4])
        elif e[0] == 'close' and e[2] in live:
            if i == fi - 1 and trace[fi][2] == 'close':
                return False
            live.discard(e[2])
            closed = True
    if trace[fi][2] == 'open':
        last = [e for e in trace[:fi] if e[0] == 'opening'][-1]
        if any(c in last[3] for c in 'wax+'):
            return False
    return closed and not live


def judge(w, u, c, mode, e, op, before, p, what, kind):
    bad = []
    if kind == 'raise':
        if e is None:
            bad.append(('error swallowed', what + ' is not reported', None))
        return bad
    if kind == 'handles':
        return open_handles(w, what)
    old = [(82, 0, p.expect(tag(p.full(), 'old')))]
    # the write is over once the index is rebuilt: only errors of the write itself must leave nothing
    done = over(w.ip.trace)
    if op == 'truncate':
        return bad
    if e is None:
        return bad
    good = [before] if mode == 'add' or op == 'open' else [[], None]
    if content(w) in good:
        exp = old if content(w) else []
    else:
        # complete data-set with a failing refresh afterwards
        full = added(before if mode == 'add' else None, content(w))
        if done and full:
            exp = (old if mode == 'add' else []) + [gt(c)]
        else:
            return [('left behind', '%s leaves %s' % (what, short((full or content(w) or [])[-3:], 90)), None)]
    return index_bad(w, u, exp, 'after ' + what, each=False) if w.file() is not None else bad


def open_handles(w, what):
    return [('handle left open', '%s leaves a handle open on %r' % (what, f.path), None) for f in w.ip.files if not f.closed][:1]


ODD = [('an empty file', []), ('a file of text', ['some text\n', 'more\n']), ('a start tag only', ['    -1\n']),
       ('an unterminated block', ['    -1\n', '    15\n', '         1\n']), ('an empty block', ['    -1\n', '    -1\n']),
       ('a block without records', ['    -1\n', '    15\n', '    -1\n']), ('a function without records', ['    -1\n', '    58\n', '    -1\n']),
       ('a binary function without records', ['    -1\n', '    58b     1     2\n', '    -1\n']),
       ('an unreadable type', ['    -1\n', '   abc\n', '    -1\n']), ('blank lines', ['\n', '\n', '\n'])]


@check('C23', 'typestate analysis of file handles by abstract interpretation, on normal, failing and I/O-error paths',
       'Every file handle opened by a public operation is closed when the operation returns or raises, for every type, failing input '
       'and point at which the system may report an error.', RT_NOTE, BASE)
def chk_c23(ctx):
    for c in all_rep(ctx):
        def fn(w, c=c):
            bad = []
            u, d = write_case(w, c)
            bad += open_handles(w, 'writing ' + c.name)
            w.read(u)
            w.read(u, 0, header_only=True)
            w.raises(w.read, u, 5)
            bad += open_handles(w, 'reading ' + c.name)
            write_case(w, c, u=u, mode='overwrite')
            bad += open_handles(w, 'overwriting with ' + c.name)
            w.raises(w.write, u, c.make(), mode='none')
            return bad + open_handles(w, 'an unknown mode')
        ctx.ob('closed after ' + c.name, fn)
        for lab, d in broken(c):
            def fb(w, c=c, lab=lab, d=d):
                u = w.uff()
                w.raises(w.write, u, snap(d), **kw_of(c))
                bad = open_handles(w, 'writing %s %s' % (c.name, lab))
                w.raises(w.write, u, snap(d), mode='overwrite', **kw_of(c))
                return bad + open_handles(w, 'overwriting with %s %s' % (c.name, lab))
            ctx.ob('closed after %s %s' % (c.name, lab), fb)

        def garbled(w, c=c):
            segs = segs_of(mks(c.block(c.full()), True))
            w.put([s if not isinstance(s, (Fld, Bin)) or i % 2 else 'zz' for i, s in enumerate(segs)])
            u = w.uff()
            w.raises(w.read, u)
            return open_handles(w, 'reading an unreadable block of type %d' % c.typ)
        ctx.ob('closed after an unreadable block of ' + c.name, garbled)
    for lab, segs in ODD:
        def odd(w, lab=lab, segs=segs):
            w.put(list(segs))
            bad = []
            u = w.uff()
            bad += open_handles(w, 'UFF() of ' + lab)
            w.raises(w.meth, u, 'refresh')
            bad += open_handles(w, 'refresh() of ' + lab)
            w.raises(w.read, u)
            w.raises(w.read, u, 0)
            w.raises(w.read, u, 0, header_only=True)
            bad += open_handles(w, 'reading ' + lab)
            w.raises(w.write, u, c15(1).make())
            w.raises(w.call, 'fix_58b', PATH)
            return bad + open_handles(w, 'writing to or repairing ' + lab)
        ctx.ob('closed with ' + lab, odd)
    faults(ctx, 'handles', None)
    read_faults(ctx, 'handles')
    fix_faults(ctx, 'handles')

    def fix(w):
        c = BIN[0]
        w.put(c.block(c.full()))
        w.call('fix_58b', PATH)
        bad = open_handles(w, 'fix_58b')
        w.raises(w.call, 'fix_58b', 'work/none.uff')
        return bad + open_handles(w, 'fix_58b of a missing file')
    ctx.ob('closed after fix_58b', fix)


def read_faults(ctx, kind):
    some = [(c.name, c.block(c.full()), gt(c)) for c in [rep(ctx, t)[0] for t in (15, 58, 2414)] + BIN[:1]]
    some.append(('a set of type 999', ['    -1\n', '   999\n', 'first\n', '    -1\n'], (999, 0, {'type': 999})))
    for name, blk, e1 in some:
        for lab, run in (('read_sets()', lambda w, u: w.read(u)), ('read_sets(0)', lambda w, u: w.read(u, 0)),
                         ('refresh()', lambda w, u: w.meth(u, 'refresh')), ('UFF()', lambda w, u: w.uff()),
                         ('header_only', lambda w, u: w.read(u, 0, header_only=True))):
            for i in range(8):
                def fn(w, name=name, blk=blk, e1=e1, run=run, i=i, lab=lab):
                    w.put(blk)
                    u = w.uff()
                    n0 = w.ip.nio
                    hit = []

                    def fault(j, what, ip):
                        if j == n0 + i:
                            hit.append(what)
                            return True
                        return False
                    w.ip.fault = fault
                    e = w.raises(run, w, u)
                    w.ip.fault = None
                    if not hit:
                        return []
                    what = 'an error of %s in %s of %s' % (hit[0], lab, name)
                    if kind == 'handles':
                        return open_handles(w, what)
                    bad = []
                    if e is None:
                        bad.append(('error swallowed', what + ' is not reported', None))
                    return bad + index_bad(w, u, [e1], 'after ' + what)
                ctx.ob('I/O error %d in %s of %s' % (i, lab, name), fn)


def fix_faults(ctx, kind):
    A, B = c15(2), BIN[0]
    for arg in ((), ('work/out.uff',)):
        for i in range(8):
            def fn(w, arg=arg, i=i):
                w.put(A.block(A.full()) + B.block(B.full()))
                n0 = w.ip.nio
                hit = []

                def fault(j, what, ip):
                    if j == n0 + i:
                        hit.append(what)
                        return True
                    return False
                w.ip.fault = fault
                e = w.raises(w.call, 'fix_58b', PATH, *arg)
                w.ip.fault = None
                if not hit:
                    return []
                what = 'an error of %s in fix_58b' % hit[0]
                if kind == 'handles':
                    return open_handles(w, what)
                return [('error swallowed', what + ' is not reported', None)] if e is None else []
            ctx.ob('I/O error %d in fix_58b%s' % (i, ' with a name' if arg else ''), fn)


# key of the numbers of the entries: a longer one asks for entries of which there are no values
COUNTS = ('node_nums', 'cs_num', 'element_nums', 'entity_type_code')


def short_lists(ctx):
    """a list that has fewer values than there are entries is not written as if it were complete"""
    cs = [c for t in (15, 18, 2411) for c in rep(ctx, t)]
    for bi in (0, 1):
        cs += [c58(4, v, 0, p, bi) for v in (0, 1) for p in (0, 1)]
    cs += [c55(at, 2) for at in (2, 3, 5, 7)]
    cs += [c2414f(3, 3)]
    cs += [c2414g(l, 1, 3, sh) for l, sh in ((1, [3] * 3), (2, [3, 3, 3]), (3, [(1, 2, 3), (2, 2, 3)]))]
    cs += [cgroups(t, (3,), flat=(t == 2429)) for t in (2429, 2467)]
    done = 0
    for c in cs:
        d0 = c.make()
        d0 = d0['groups'][0] if 'groups' in d0 else d0
        num = [k for k in COUNTS if k in d0]
        for k, v in d0.items():
            n = v.size() if isinstance(v, Arr) and len(v.shape) == 1 else len(v) if isinstance(v, list) else 0
            if n < 2 or k in ('NDVAL',):
                continue
            by = (1,) if k in num else (-1,)
            if c.typ == 58 and 'x' in d0:
                by = (-1, 1)
            if c.typ == 2414 and k not in num and not (isinstance(v, list) or isinstance(v, Arr)):
                continue
            for b in by:
                def fs(w, c=c, k=k, b=b):
                    d = c.make()
                    e = d['groups'][0] if 'groups' in d else d
                    v = e[k]
                    if isinstance(v, Arr):
                        x = v.elems()
                        e[k] = Arr(x[:-1] if b < 0 else x + [tag(x[-1], 9)], None, v.dt)
                    else:
                        e[k] = v[:-1] if b < 0 else v + [tag(v[-1], 9)]
                    u = w.uff()
                    if w.raises(w.write, u, d, **kw_of(c)) is None:
                        return [('%s: lengths' % c.typ, '%s with %s value of %s than its other lists hold is written without an error' % (
                            c.name, 'one more' if b > 0 else 'one less', k), None)]
                    return []
                ctx.ob('%s with %s %+d' % (c.name, k, b), fs)
                done += 1
    assert done >= 60, 'lists of different lengths: only %d' % done


@check('C24', 'exception-flow analysis by abstract interpretation (no path swallows an error)',
       'Missing files, required keys, unknown modes and types of analysis, indices out of range, unreadable numbers and every I/O error '
       'reach the caller as an exception.', RT_NOTE, BASE)
def chk_c24(ctx):
    for c in all_rep(ctx):
        for lab, d in broken(c):
            if not lab.startswith('without'):
                continue

            def fb(w, c=c, lab=lab, d=d):
                u = w.uff()
                if w.raises(w.write, u, snap(d), **kw_of(c)) is None:
                    return [('%s: accepted %s' % (c.typ, lab), '%s %s is accepted' % (c.name, lab), None)]
                return []
            ctx.ob('%s %s' % (c.name, lab), fb)
    for mode in (None, 'add', 'overwrite', 'ADD'):
        def nothing(w, mode=mode):
            c = c15(2)
            u = w.uff()
            bad = []
            for there in (False, True):
                if there:
                    w.put(c.block(c.full()))
                old = content(w)
                if w.raises(w.write, u, [], **({'mode': mode} if mode else {})) is None:
                    bad.append(('nothing to write', 'an empty list is written without an error, mode %s' % mode, None))
                if content(w) != old:
                    bad.append(('nothing to write', 'writing an empty list changes the file, mode %s' % mode, None))
            return bad
        ctx.ob('an empty list, mode %s' % mode, nothing)
    # unreadable numbers
    for c in all_rep(ctx):
        full = segs_of(mks(c.block(c.full()), True))
        nums = [i for i, s in enumerate(full) if isinstance(s, Fld) and s.numeric()]
        skip = unread(c)
        for i in nums if ctx.deep else thin(nums, 24):
            nm = full[i].sym.term

            def fg(w, c=c, i=i, full=full):
                segs = list(full)
                f = segs[i]
                segs[i] = 'zz'.rjust(f.width)
                w.put(segs)
                u = w.uff()
                e = w.raises(w.read, u, 0)
                if e is None:
                    return [('%s: unreadable number' % c.typ, '%s: a record with %r instead of the number %s is read without an error' % (
                        c.name, 'zz', f.sym), None)]
                return []
            while nm[0] in ('re', 'im'):
                nm = nm[1]
            if nm[0] == 'a' and len(nm) > 2 and nm[1] not in skip or nm[0] != 'a':
                ctx.ob('unreadable %s of %s' % (full[i].sym, c.name), fg)
    short_lists(ctx)
    faults(ctx, 'raise', None)
    read_faults(ctx, 'raise')
    fix_faults(ctx, 'raise')

    def misc(w):
        bad = []
        u = w.uff('work/none.uff')
        for a in ((), (0,), ([0, 1],), (None, True)):
            if w.raises(w.meth, u, 'read_sets', *a) is None:
                bad.append(('missing file', 'read_sets%r of a missing file does not raise' % (a,), None))
        if w.raises(w.call, 'fix_58b', 'work/none.uff') is None:
            bad.append(('missing file', 'fix_58b of a missing file does not raise', None))
        u = w.uff()
        for t, k, vals in ((58, 'func_type', (5, 7, 8, 10, -1, 28)), (55, 'analysis_type', (0, 1, 4, 6, 8)),):
            c = rep(ctx, t)[0]
            for v in vals:
                d = c.make()
                d[k] = v
                if w.raises(w.write, u, d) is None:
                    bad.append(('%d: %s' % (t, k), '%d with %s=%d is accepted' % (t, k, v), None))
        return bad
    ctx.ob('errors of the caller', misc)

    for n in (1, 2, 3):
        for k in ('CS_sys_labels', 'CS_types', 'CS_colors', 'CS_names', 'CS_matrices'):
            for by in (-1, 1):
                def cs2420(w, n=n, k=k, by=by):
                    d = c2420(n).make()
                    d[k] = c2420(n + by).make()[k] if n + by else []
                    if w.raises(w.write, w.uff(), d) is None:
                        return [('2420: lengths', '2420 with %d coordinate systems and %d of %s is accepted' % (n, n + by, k), None)]
                    return []
                ctx.ob('2420 with %d systems and %d of %s' % (n, n + by, k), cs2420)

    def modes(w):
        bad = []
        for m in ('', 'a', 'ad', 'dd', 'd', 'adds', 'append', 'over', 'write', 'overwrites', 'ooverwrite', 'w', 'add overwrite', 'overwrite ', None, 1, 0, True, False):
            for pre in (False, True):
                w.ip.fs.clear()
                u = w.uff()
                if pre:
                    w.write(u, c15(1).make())
                before = content(w)
                if w.raises(w.meth, u, 'write_sets', c15(2).make(), m) is None:
                    bad.append(('mode', 'write_sets with the unknown mode %r does not raise' % (m,), None))
                elif content(w) != before:
                    bad.append(('mode', 'write_sets with the unknown mode %r changes the file' % (m,), None))
        return bad
    ctx.ob('unknown modes', modes)
    for at in (2, 3, 5, 7):
        for n in (1, 2):
            for rc in ((1,) * 6, (0, 0, 0, 1, 1, 1), (1, 1, 1, 0, 0, 0)):
                def six(w, at=at, n=n, rc=rc):
                    d = c55(at, n, six=True).make()
                    for i, x in enumerate(rc):
                        if x:
                            d['r%d' % (i + 1)] = cpxs('r%d' % (i + 1), n)
                    u = w.uff()
                    if w.raises(w.write, u, d) is not None:
                        return []
                    # accepted: then nothing may be missing
                    return [('55: six complex values', '55 with complex r1 to r6 (analysis %d) is written without an error but not all of it is' % at, None)
                            ] if not {('r%d' % i, p) for i in range(1, 7) for p in (0, 1) if p < 1 + rc[i - 1]} <= parts(content(w)) else []
                ctx.ob('six values of which %s are complex, analysis %d, n=%d' % (rc, at, n), six)
    for cs in ([0, 1], [1, 0, 2], [2, 1], [0, 2, 1]):
        for sel in (None, 'list', 'tail'):
            def later(w, cs=cs, sel=sel):
                names = [c15(2), c82(3), c58(2, 0, 1, 1, 0)]
                bad = []
                for k in range(len(cs)):
                    segs = []
                    for j, i in enumerate(cs):
                        b = segs_of(mks(names[i].block(names[i].full()), True))
                        if j == k:
                            f = [q for q, x in enumerate(b) if isinstance(x, Fld) and x.numeric()][-1]
                            b = b[:f] + ['zz'.rjust(b[f].width)] + b[f + 1:]
                        segs += b
                    w.put(segs)
                    u = w.uff()
                    a = () if sel is None else (list(range(len(cs))),) if sel == 'list' else ([k, 0] if k else [0, 1],)
                    if w.raises(w.read, u, *a) is None:
                        bad.append(('later set', 'reading %s of %d data-sets of which set %d is unreadable does not raise' % (
                            'all' if not a else a[0], len(cs), k), None))
                return bad
            ctx.ob('one of %s unreadable, %s' % (cs, sel or 'all'), later)

    def codes(w):
        bad = []

        def swap(c, what, old, new, line):
            lines = ssplitlines(mks(c.block(c.full()), True), True)
            segs = segs_of(lines[line])
            t = segs[0].replace(old, new, 1) if isinstance(segs[0], str) else None
            if t is None or t == segs[0]:
                t = [x.replace(old, new, 1) if isinstance(x, str) else x for x in segs]
                if t == segs:
                    raise Undecided('no %s in line %d' % (old, line))
                segs = t
            else:
                segs = [t] + segs[1:]
            lines[line] = mks(segs, True)
            w.put([x for l in lines for x in segs_of(l)])
            if w.raises(w.read, w.uff(), 0) is None:
                bad.append((what, '%s of %s is read without an error' % (what, c.name), None))
        for k in ('         1', '         4', '         6', '         9'):
            swap(c55(2, 2), '55: data type %s' % k.strip(), '         2         3\n', k + '         3\n', 7)
        swap(c55(2, 2, cplx=True), '55: six complex values', '         5         3', '         5         6', 7)
        for k in ('         1', '         3', '         7', '         9'):
            for c in (c58(2, 0, 1, 1, 0), c58(2, 1, 0, 1, 0)):
                swap(c, '58: ordinate data type %s' % k.strip(), '         %d' % (6 if c.meta['cplx'] else 4), k, 8)
        return bad
    ctx.ob('unknown codes in a block', codes)

    def nval(w):
        bad = []
        for n in (0, 4, 5, 6):
            d = c2414f(2, 3).make()
            d['number_of_data_values_for_the_data_component'] = n
            if w.raises(w.write, w.uff(), d) is None:
                bad.append(('2414: values', '2414 with %d values of a node is accepted' % n, None))
        return bad
    ctx.ob('2414 with other numbers of values', nval)


def parts(segs):
    """which real and imaginary parts of which keys are in the file"""
    out = set()

    def walk(t, p):
        if isinstance(t, tuple) and t:
            if t[0] == 'a' and len(t) > 1:
                out.add((t[1], p))
            for x in t[1:] if t[0] != 'a' else ():
                walk(x, 1 if t[0] == 'im' else p)
    for s in segs:
        if not isinstance(s, str) and getattr(s, 'sym', None) is not None:
            walk(s.sym.term, 0)
    return out


def atoms_of(t):
    if isinstance(t, tuple):
        if t and t[0] == 'a':
            return [t[1]]
        return [x for s in t for x in atoms_of(s)]
    return []


def unread(c):
    """fields whose columns the reader documents to default when blank or unreadable"""
    return UNREAD.get(c.typ, ())


UNREAD = {}


# ============================================================ C25 characters
@check('C25', 'codec analysis by abstract interpretation (encoding of every handle, no column cut of undecoded bytes)',
       'Text is written and read as UTF-8, and columns are cut from decoded text: no reader slices bytes at a column behind a text field.',
       RT_NOTE, BASE)
def chk_c25(ctx):
    utf = ('utf-8', 'utf8', 'utf_8', 'UTF-8', 'UTF8')

    def codec_bad(w, n0, what):
        bad = []
        for e in w.ip.trace[n0:]:
            if e[0] == 'open' and 'b' not in e[3] and e[5] not in utf:
                bad.append(('encoding', '%s: the file is opened as text with encoding %r' % (what, e[5]), e[1]))
            elif e[0] == 'codec' and e[3] not in utf:
                bad.append(('codec', '%s: %s with %r' % (what, e[2], e[3]), e[1]))
            elif e[0] == 'codec' and e[2] == 'encode' and e[4] not in ('strict', 'surrogateescape', 'surrogatepass'):
                bad.append(('codec', '%s: encode drops characters (%r)' % (what, e[4]), e[1]))
            elif e[0] == 'codec' and e[2] == 'decode' and e[4] == 'ignore':
                bad.append(('codec', '%s: decode drops characters (%r)' % (what, e[4]), e[1]))
        return bad[:3]
    for c in all_rep(ctx):
        def fn(w, c=c):
            n0 = len(w.ip.trace)
            u, d = write_case(w, c)
            bad = codec_bad(w, n0, 'writing ' + c.name)
            n0 = len(w.ip.trace)
            e = [(c.typ, fmt_of(c), c.expect(c.full()))]
            bad += index_bad(w, u, e, 'written ' + c.name)
            return bad + codec_bad(w, n0, 'reading ' + c.name)
        ctx.ob('written and read as UTF-8: ' + c.name, fn)
        ctx.ob('written and read, texts with wide characters: ' + c.name, fn, wide=1)

        def fr(w, c=c):
            o = c15(2)
            e = [gt(c), gt(o), gt(c)]
            w.put(c.block(c.full()) + o.block(o.full()) + c.block(c.full()))
            n0 = len(w.ip.trace)
            u = w.uff()
            bad = index_bad(w, u, e, 'documented block of ' + c.name)
            full = c.expect(c.full())
            got = w.read(u, 2, header_only=True)
            for k, v in full.items():
                if k in got and not (c.typ == 58 and k in ('x', 'data')) and not (isinstance(got[k], (list, Arr)) and not len(norm(got[k]))):
                    bad += diff({k: v}, got, w.ip, 'header of ' + c.name) if not isinstance(v, (list, Arr)) else []
            return bad + codec_bad(w, n0, 'reading a documented block of ' + c.name)
        ctx.ob('documented block read as UTF-8: ' + c.name, fr)
        ctx.ob('documented block read, texts with wide characters: ' + c.name, fr, wide=1)
        if not has_text(c):
            continue
        for k, words in enumerate((('\u017e' * 80,), ('a\u03a9\U0001d70e', '\u20ac', 'n\u0119e b', 'x\u0301'), ('\u4e2d' * 80, 'ok'))):
            def fw(w, c=worded(c, 0, words), k=k):
                u, d = write_case(w, c)
                e = [(c.typ, fmt_of(c), c.expect(c.full()))]
                bad = index_bad(w, u, e, 'written %s, texts like %r' % (c.name, words[0][:3]))
                o = c15(2)
                w.put(c.block(c.full()) + o.block(o.full()))
                return bad or index_bad(w, w.uff(), e + [gt(o)], 'documented block of %s, texts like %r' % (c.name, words[0][:3]))
            ctx.ob('texts like U+%04X, kind %d: %s' % (ord(words[0][0]), k, c.name), fw)
        # texts of programs that do not write UTF-8: such a byte is one character of its column, every other field is read
        for k, words in enumerate((('Stra\xdfe 5\xb0', '\xb0C', 'Gr\xf6\xdfe'), ('\xe9t\xe9', 'x\xff'), ('\xb5', 'm\xb2', '\xa0'), ('\xfcn',))):
            def lat(w, c=c, words=words):
                x = worded(c, 0, words)
                y = worded(c, 0, [v.encode('latin-1').decode('utf-8', 'replace') for v in words])
                o = c15(2)
                w.put(o.block(o.full()) + x.block(x.full()) + o.block(o.full()))
                return index_bad(w, w.uff(), [gt(o), (c.typ, fmt_of(c), y.expect(y.full())), gt(o)],
                                 'block of %s with texts like %r in Latin-1' % (c.name, words[0]))
            ctx.ob('texts in Latin-1, kind %d: %s' % (k, c.name), lat)
    # blocks longer than any size the code states
    for k in [v for v in ctx.buffers(('pyuff', 'tools'), 2000, 1 << 18)][-2:]:
        def big(w, k=k):
            c = spec.c18(k // 200 + 3)
            x, y = worded(c, 0, ('Stra\xdfe 5\xb0', '\xb0C')), worded(c, 0, ('Stra\ufffde 5\ufffd', '\ufffdC'))
            o = c15(2)
            w.put(x.block(x.full()) + o.block(o.full()))
            return index_bad(w, w.uff(), [(18, fmt_of(c), y.expect(y.full())), gt(o)], 'block of more than %d bytes with texts in Latin-1' % k,
                             each=False)
        ctx.ob('texts in Latin-1, block of more than %d bytes' % k, big, budget=40000000)


# ========================================================== C26 caller's data
DERIVED = {58: {'ord_data_type', 'abscissa_min', 'abscissa_inc', 'num_pts', 'n_bytes', 'data'}, }


def changed(a, b, path=''):
    """first difference of a value and its snapshot"""
    if isinstance(a, Arr) or isinstance(b, Arr):
        if not (isinstance(a, Arr) and isinstance(b, Arr)) or a.shape != b.shape or a.dt != b.dt:
            return path
        a, b = a.elems(), b.elems()
        return None if all(x is y or (type(x) is type(y) and x == y) for x, y in zip(a, b)) else path
    if isinstance(a, dict) and isinstance(b, dict):
        for k in b:
            if k not in a:
                return path + '[%r] removed' % (k,)
            r = changed(a[k], b[k], path + '[%r]' % (k,))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        if len(a) != len(b):
            return path
        for i, (x, y) in enumerate(zip(a, b)):
            r = changed(x, y, path + '[%d]' % i)
            if r:
                return r
        return None
    if a is b:
        return None
    return None if type(a) is type(b) and a == b else path


@check('C26', 'effect analysis by abstract interpretation (stores into objects of the caller)',
       'Writing adds defaults and derived keys to the caller\'s dictionary at most; no value the caller passed (array, list, nested '
       'dictionary, text or number) is changed, except the documented derived header values; preparing and converting change nothing.',
       RT_NOTE, BASE)
def chk_c26(ctx):
    for c in list(all_rep(ctx)) + [c2412([(44, [4, 4]), (11, [2]), (41, [3])])]:
        for om in ((), droppable(c)):
            for mode in ('add', 'overwrite'):
                def fn(w, c=c, om=om, mode=mode):
                    d = c.make(om)
                    s = snap(d)
                    vals = {k: v for k, v in d.items()}
                    inner = {k: snap(v) for k, v in d.items()}
                    write_case(w, c, d, mode=mode)
                    bad = []
                    for k, v in vals.items():
                        p = changed(v, inner[k], 'dset[%r]' % k)
                        if p:
                            bad.append(('%s: %s of the caller' % (c.typ, k), 'writing %s changes the caller\'s %s' % (c.name, p),
                                        w.ip.prov.get((id(d), k))))
                        if k not in d:
                            bad.append(('%s: key removed' % c.typ, 'writing %s removes %r' % (c.name, k), None))
                        elif d[k] is not v and k not in DERIVED.get(c.typ, ()) and changed(d[k], inner[k], k):
                            bad.append(('%s: %s of the caller' % (c.typ, k), 'writing %s stores another value in %r' % (c.name, k),
                                        w.ip.prov.get((id(d), k))))
                    for k, v in inner.items():
                        if k == 'data' and isinstance(d.get(k), Arr) and not same(norm(d[k]), norm(v)):
                            bad.append(('data of the caller', 'writing %s changes data' % c.name, None))
                    return bad
                ctx.ob('writing %s%s, %s' % (c.name, ' without optional keys' if om else '', mode), fn)

        if c.typ == 58:
            for lab, sc in scenarios(c.n):
                def inplace(w, c=c, sc=sc):
                    d = c.make()
                    vals = dict(d)
                    inner = {k: snap(v) for k, v in d.items()}
                    not_finite(w, sc)
                    write_case(w, c, d)
                    return [('%s: %s of the caller' % (c.typ, k), 'writing %s changes the caller\'s %s' % (c.name, p), None)
                            for k, p in ((k, changed(v, inner[k], 'dset[%r]' % k)) for k, v in vals.items()) if p]
                ctx.ob('writing %s, data %s' % (c.name, lab), inplace)

        def twice(w, c=c):
            d = c.make()
            u = w.uff()
            write_case(w, c, d, u)
            a = content(w)
            write_case(w, c, d, u)
            b = added(a, content(w))
            bad = []
            if b != a:
                bad.append(('%s: second write' % c.typ, 'the same dictionary of %s is written differently the second time' % c.name, None))
            return bad
        ctx.ob('the same dictionary twice: ' + c.name, twice)
    for t in TYPES:
        if t in (2429, 2467):
            continue

        def prep(w, t=t):
            a = {k: prep_value(t, k, kind) for k, kind in PREP[t].items()}
            s = snap(a)
            got = w.call('prepare_%d' % t, **a)
            bad = []
            for k in a:
                p = changed(a[k], s[k], k)
                if p:
                    bad.append(('prepare_%d: %s' % (t, k), 'prepare_%d changes its argument %s' % (t, p), None))
            return bad
        ctx.ob('prepare_%d' % t, prep)
    for t in (2429, 2467):
        def pg(w, t=t):
            g = {'group_number': 3, 'group_name': 'g'}
            for k in GCOLS[t]:
                g[k] = ints(k, 2)
            for k in ACT:
                g[k] = 0
            gs = [g]
            s = snap(gs)
            w.call('prepare_%d' % t, groups=gs)
            p = changed(gs, s, 'groups')
            return [('prepare_%d' % t, 'prepare_%d changes %s' % (t, p), None)] if p else []
        ctx.ob('prepare_%d' % t, pg)

    def conv(w):
        q = {'nodes_nums': [[atom('int', 'q', j, k) for k in range(4)] for j in range(2)], 'element_nums': [1, 2]}
        ds = [{'type': 2412, 'quad': q}, {'type': 15, 'node_nums': ints('node_nums', 2)}]
        s = snap(ds)
        w.call('convert_dataset_2412_to_82' if 'convert_dataset_2412_to_82' in w.m.env else tool(w), ds)
        p = changed(ds, s, 'datasets') or next(('datasets[%d]' % i for i in range(len(ds)) if set(ds[i]) != set(s[i])), None) or \
            (set(q) != set(s[0]['quad']) and 'datasets[0][quad]')
        return [('convert', 'convert_dataset_2412_to_82 changes %s' % p, None)] if p else []
    ctx.ob('convert_dataset_2412_to_82', conv)


def tool(w):
    """the conversion function, wherever the package keeps it"""
    for name in ('pyuff.tools', 'pyuff', 'pyuff.pyuff'):
        m = w.ip.module(name)
        if m is not None and 'convert_dataset_2412_to_82' in m.env:
            return m.env['convert_dataset_2412_to_82']
    raise Missing('convert_dataset_2412_to_82')


# ====================================================== C27 no hidden state
def wreck(v, seen=None):
    """overwrite everything mutable that is reachable"""
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, dict):
        for x in list(v.values()):
            wreck(x, seen)
        for k in list(v):
            if k != 'type':
                v[k] = 'wrecked'
        v['left over'] = 1
    elif isinstance(v, list):
        for x in v:
            wreck(x, seen)
        v.append('wrecked')
    elif isinstance(v, Arr):
        for i in range(len(v.buf)):
            v.buf[i] = -7


@check('C27', 'aliasing and effect analysis by abstract interpretation of histories compared with a fresh program state',
       'What an operation writes, reads or prepares does not depend on earlier operations on other files or dictionaries, nor on what the '
       'caller does with dictionaries it was given.', RT_NOTE, BASE)
def chk_c27(ctx):
    many(ctx)
    reps = [rep(ctx, t)[0] for t in TYPES] + BIN
    alt = {58: dict(force_double=False)}

    def fresh(ctx, w, c, om=()):
        f = World(ctx.pkg, w.ip.dec)
        f.write(f.uff(), c.make(om), **kw_of(c))
        return content(f)
    for c in reps:
        for om in ((), droppable(c)):
            def fn(w, c=c, om=om):
                # an eventful past
                w.ip.dec.plain = True
                for o in reps:
                    v = w.uff('work/past_%s.uff' % o.typ)
                    d = tag(o.make(droppable(o) if o.typ != 151 else ()), 'past')
                    w.write(v, d, **(alt.get(o.typ) or {}))
                    wreck(d)
                    r = w.read(v)
                    wreck(r)
                    w.raises(w.write, v, {'type': o.typ})
                    w.raises(w.read, v, 7)
                w.ip.dec.plain = False
                exp = fresh(ctx, w, c, om)
                u = w.uff()
                w.write(u, c.make(om), **kw_of(c))
                bad = []
                if content(w) != exp:
                    bad.append(('%s: history' % c.typ, '%s is written differently after other operations' % c.name, None))
                e = c.expect(c.full(om))
                got = w.read(u)
                bad += diff(e, got, w.ip, 'first read of ' + c.name)
                wreck(got)
                bad += diff(e, w.read(u), w.ip, 'read of %s after the dictionary read before was changed' % c.name)
                return bad + diff(e, w.read(w.uff()), w.ip, 'read of %s by a new object' % c.name)
            ctx.ob('%s%s after other operations' % (c.name, ' without optional keys' if om else ''), fn, budget=6000000)

    for t in TYPES:
        if t in (2429, 2467):
            continue

        def prep(w, t=t):
            f = 'prepare_%d' % t
            bad = []
            for kw in ({}, {'return_full_dict': True}):
                a = w.call(f, **kw)
                wreck(a)
                b = w.call(f, **kw)
                bad += diff(dict({k: None for k in PREP[t]} if kw else {}, type=t), b, w.ip, f + ' called again')
                if set(b) != set(dict({k: None for k in PREP[t]} if kw else {}, type=t)):
                    bad.append((f + ': left over', '%s called again has the keys %s' % (f, sorted(b)), None))
            return bad
        ctx.ob('prepare_%d twice' % t, prep)

    def kept(w):
        got = []
        for k in range(2):
            for t in TYPES:
                if t in (2429, 2467):
                    continue
                for kw in ({}, {'return_full_dict': True}, {a: tag(prep_value(t, a, kind), k) for a, kind in PREP[t].items()}):
                    d = w.call('prepare_%d' % t, **kw)
                    got.append((t, d, snap(d)))
        bad = []
        for t, d, s in got:
            if changed(d, s, 'd') or set(d) != set(s):
                bad.append(('prepare_%d: kept' % t, 'what prepare_%d gave is changed by later calls of prepare functions: %s' % (
                    t, short(d)), None))
        for i, (t, d, s) in enumerate(got):
            for t2, d2, s2 in got[:i]:
                if d is d2:
                    bad.append(('prepare_%d: shared' % t, 'prepare_%d and prepare_%d give the same dictionary' % (t2, t), None))
        return bad[:6]
    ctx.ob('prepared dictionaries are kept', kept)

    def groups(w):
        a = {'group_number': 3, 'group_name': 'g', 'entity_type_code': [1, 2], 'entity_tag': [3, 4]}
        g = w.call('prepare_group', **a)
        e = snap(g)
        wreck(g)
        return diff(e, w.call('prepare_group', **{'group_number': 3, 'group_name': 'g', 'entity_type_code': [1, 2],
                                                  'entity_tag': [3, 4]}), w.ip, 'prepare_group called again')
    ctx.ob('prepare_group twice', groups)

    def two(w):
        a, b = c15(2), c82(3)
        u, v = w.uff('work/a.uff'), w.uff('work/b.uff')
        w.write(u, a.make())
        w.write(v, b.make())
        w.write(v, tag(a.make(), 'v'))
        bad = index_bad(w, u, [gt(a)], 'first of two objects')
        bad += index_bad(w, v, [gt(b), (15, 0, a.expect(tag(a.full(), 'v')))], 'second of two objects')
        w.write(u, b.make(), mode='overwrite')
        bad += index_bad(w, v, [gt(b), (15, 0, a.expect(tag(a.full(), 'v')))], 'second of two objects, first overwritten')
        if w.meth(u, 'get_file_name') != 'work/a.uff' or w.meth(v, 'get_file_name') != 'work/b.uff':
            bad.append(('file name', 'get_file_name() of two objects is mixed up', None))
        return bad + index_bad(w, u, [gt(b)], 'first of two objects, overwritten')
    ctx.ob('two objects', two)


# =============================================================== C28 console
@check('C28', 'effect analysis by abstract interpretation (console output and warnings)',
       'Reading, writing, indexing and preparing print nothing, read no input and warn about nothing; only get_structure, fix_58b and the '
       'documented not-implemented messages of 2414 print.', RT_NOTE, BASE)
def chk_c28(ctx):
    def noise(w, n0, what):
        return [('console', '%s: %s' % (what, {'print': 'prints', 'warn': 'warns', 'input': 'reads the console'}[e[0]]), e[1])
                for e in w.ip.trace[n0:] if e[0] in ('print', 'warn', 'input')][:2]
    for c in list(all_rep(ctx)) + [x for t in TYPES for x in thin(ctx.cases(t), 8)]:
        def fn(w, c=c):
            n0 = len(w.ip.trace)
            u, d = write_case(w, c)
            w.read(u)
            w.read(u, 0, header_only=True)
            write_case(w, c, u=u, mode='overwrite')
            for m in ('refresh', 'get_n_sets', 'get_set_types', 'get_set_formats', 'get_status', 'get_file_name', 'file_exists',
                      'get_supported_sets'):
                w.meth(u, m)
            bad = noise(w, n0, c.name)
            for lab, b in broken(c)[:4]:
                w.raises(w.write, u, snap(b))
            w.raises(w.read, u, 9)
            return bad or noise(w, n0, 'failing operations on ' + c.name)
        ctx.ob('silent: ' + c.name, fn, zero=True)

        def fr(w, c=c):
            n0 = len(w.ip.trace)
            w.put(c.block(c.full(), big=True, eol='\r\n'))
            w.read(w.uff())
            return noise(w, n0, 'reading ' + c.name)
        ctx.ob('silent reading: ' + c.name, fr, zero=True)
    for c in all_rep(ctx):
        full = segs_of(mks(c.block(c.full()), True))
        nums = [i for i, s in enumerate(full) if isinstance(s, Fld)]
        for i in nums if ctx.deep else thin(nums, 30):
            def fb(w, c=c, i=i, full=full):
                bad = []
                for t in (' ', '*'):
                    n0 = len(w.ip.trace)
                    w.put(full[:i] + [t * full[i].width] + full[i + 1:])
                    u = w.uff()
                    w.raises(w.read, u, 0)
                    w.raises(w.read, u, 0, header_only=True)
                    bad += noise(w, n0, 'reading %s with %r for %s' % (c.name, t, full[i].sym))
                return bad
            ctx.ob('silent reading of %s, field %d blank' % (c.name, i), fb)
        lines = ssplitlines(mks(c.block(c.full()), True), True)

        def ft(w, c=c, lines=lines):
            bad = []
            for k in range(2, min(len(lines) - 1, 15)):
                for cut in (0, 4, 10):
                    n0 = len(w.ip.trace)
                    ln = segs_of(sslice(lines[k], 0, cut)) if cut else []
                    try:
                        w.put([x for l in lines[:k] for x in segs_of(l)] + ln + ['\n'] + [x for l in lines[k + 1:] for x in segs_of(l)])
                        w.raises(w.read, w.uff(), 0)
                    except Undecided:
                        continue
                    bad += noise(w, n0, 'reading %s with a short record' % c.name)
            return bad[:3]
        ctx.ob('silent reading of short records of ' + c.name, ft)
    for t in TYPES:
        def prep(w, t=t):
            n0 = len(w.ip.trace)
            if t in (2429, 2467):
                w.raises(w.call, 'prepare_%d' % t, groups=[])
            else:
                w.call('prepare_%d' % t, **{k: prep_value(t, k, kind) for k, kind in PREP[t].items()})
                w.call('prepare_%d' % t, return_full_dict=True)
            return noise(w, n0, 'prepare_%d' % t)
        ctx.ob('silent prepare_%d' % t, prep)

    def struct(w):
        bad = []
        for t in TYPES:
            n0 = len(w.ip.trace)
            w.call('get_structure_%d' % t, raw=True)
            bad += noise(w, n0, 'get_structure_%d(raw=True)' % t)
        return bad
    ctx.ob('silent get_structure(raw=True)', struct)


# ============================================================ C29 conversion
@check('C29', 'abstract interpretation of the conversion over lists of data-sets',
       'Every data-set 2412 with quadrilaterals gives one data-set 82 in order, with its position in the list as trace number and the '
       'closed outline of every element (n1 n2 0 n2 n3 0 n3 n4 0 n4 n1 0); other data-sets give nothing; the result can be written.',
       'Node numbers are unknowns; lists of up to 3 data-sets and 0 to 3 elements.', BASE)
def chk_c29(ctx):
    def quad(k, n):
        return {'type': 2412, 'quad': {'nodes_nums': [[atom('int', 'q', k, j, i, nz=True) for i in range(4)] for j in range(n)],
                                       'element_nums': [atom('int', 'e', k, j) for j in range(n)]}}

    def outline(q):
        r = []
        for e in norm(q['quad']['nodes_nums']):
            for i in range(4):
                r += [e[i], e[(i + 1) % 4], 0]
        return r
    plain = {'type': 15, 'node_nums': [1], 'x': [0.], 'y': [0.], 'z': [0.]}
    tri = {'type': 2412, 'triangle': {'nodes_nums': [[1, 2, 3]]}}
    for lab, mk in (('one', lambda: [quad(0, 1)]), ('two elements', lambda: [quad(0, 2)]), ('three elements', lambda: [quad(0, 3)]),
                    ('two sets', lambda: [quad(0, 2), quad(1, 1)]), ('three sets', lambda: [quad(0, 1), quad(1, 2), quad(2, 1)]),
                    ('others between', lambda: [dict(plain), quad(1, 1), tri, quad(3, 2)]), ('none', lambda: [dict(plain), tri]),
                    ('quadrilaterals first', lambda: [dict(quad(0, 2), **dict(tri)), dict(tri, **quad(1, 1))]),
                    ('other elements', lambda: [dict(quad(0, 1), **{'triangle': {'nodes_nums': [[1, 2, 3]]}}),
                                                {'quad': quad(1, 2)['quad'], 'type': 2412, 94: [{'nodes_nums': [1, 2, 3, 4]}]}]),
                    ('no elements', lambda: [quad(0, 0), quad(1, 1)]), ('six sets', lambda: [quad(i, 1 + i % 2) for i in range(6)]),
                    ('tuple', lambda: tuple([quad(0, 1), dict(plain), quad(2, 1)])),
                    ('empty', lambda: []), ('array', lambda: [dict(quad(0, 2), quad={'nodes_nums': Arr(
                        [atom('int', 'q', j, i, nz=True) for j in range(2) for i in range(4)], (2, 4), 'i8')})])):
        def fn(w, mk=mk, lab=lab):
            ds = mk()
            got = w.ip.call(tool(w), [ds], {})
            exp = [(i, outline(d)) for i, d in enumerate(ds) if d['type'] == 2412 and 'quad' in d]
            if not isinstance(got, list) or len(got) != len(exp):
                return [('number of sets', '%s: %s converted sets, expected %d' % (lab, len(got) if isinstance(got, list) else got, len(exp)), None)]
            bad = []
            for g, (i, o) in zip(got, exp):
                bad += diff({'type': 82, 'trace_num': i, 'n_nodes': len(o), 'nodes': o}, g, w.ip, 'conversion of set %d (%s)' % (i, lab))
            if bad:
                return bad
            for g, (i, o) in zip(got, exp):
                w.ip.fs.pop(PATH, None)
                u = w.uff()
                w.write(u, g)
                bad += diff({'type': 82, 'trace_num': i, 'nodes': o}, w.read(u), w.ip, 'converted set %d written and read (%s)' % (i, lab))
            return bad
        ctx.ob('conversion: ' + lab, fn)

    def chain(w):
        c = c2412([(44, [4, 4])])
        w.put(c.block(c.full()))
        ds = w.read(w.uff())
        got = w.ip.call(tool(w), [[ds]], {})
        if len(got) != 1:
            return [('number of sets', 'a data-set read from a file is converted to %d sets' % len(got), None)]
        o = outline(ds)
        return diff({'type': 82, 'trace_num': 0, 'nodes': o}, got[0], w.ip, 'conversion of a data-set read from a file')
    ctx.ob('conversion of what was read', chain)


# =============================================================== C30 fix_58b
@check('C30', 'abstract interpretation of fix_58b over files of text and binary sets',
       'In the fixed copy the end tag of every binary data-set follows its data directly and nothing else is changed; the fixed copy is '
       'read like the file before the defect; the original file is left as it is.',
       'Payloads are unknown words; files of up to 4 sets, LF and CRLF, custom and default names.', BASE)
def chk_c30(ctx):
    A, B, C, B2 = c15(2), BIN[0], c82(3), BIN[1]
    defect = lambda segs: segs[:-1] + [('\n' + segs[-1]) if isinstance(segs[-1], str) else segs[-1]]

    def blk(c, k, bad, eol='\n'):
        s = segs_of(mks(c.block(tag(c.full(), k), eol=eol), True))
        if bad and c.binary:
            assert s[-1].startswith('    -1'), s[-1]
            s[-1] = eol + s[-1]
        return s
    groups = [[B], [A, B], [B, A], [B, B2], [A, B, C], [B, B2, A], [B2, A, B, C], [A], [A, C], [A, B, B2]]
    for g in groups:
        for eol in ('\n', '\r\n'):
            for isbad in (1, 0):
                for end in (1, 0):
                    def fn(w, g=g, eol=eol, isbad=isbad, end=end):
                        good, bad_ = [], []
                        for k, c in enumerate(g):
                            good += blk(c, k, 0, eol)
                            bad_ += blk(c, k, isbad, eol)
                        if not end:
                            good[-1], bad_[-1] = good[-1].rstrip('\r\n'), bad_[-1].rstrip('\r\n')
                        w.put(bad_)
                        w.put(['kept'], 'work/keep.uff')
                        if end:
                            # copies of an earlier run are replaced
                            for old in ('work/out.uff', 'work/f_fixed.uff'):
                                w.put(['former copy\n'] * 4 + bad_ + bad_, old)
                        before = content(w)
                        for out, a in (('work/out.uff', ('work/out.uff',)), ('work/f_fixed.uff', ())):
                            w.call('fix_58b', PATH, *a)
                            if content(w) != before:
                                return [('original', 'fix_58b changes the original file', None)]
                            got = content(w, out)
                            if got is None:
                                return [('no output', 'fix_58b does not write %r' % out, None)]
                            if segs_of(mks(got, True)) != segs_of(mks(good, True)):
                                return [('fixed file', 'fix_58b of %s (%s, end tags %s): the copy differs from the file before the '
                                         'defect: %s instead of %s' % ([c.typ for c in g], repr(eol), 'moved' if isbad else 'in place',
                                                                      short(got[-4:]), short(good[-4:])), None)]
                        if set(w.ip.fs) != {PATH, 'work/keep.uff', 'work/out.uff', 'work/f_fixed.uff'}:
                            return [('other file', 'fix_58b leaves the files %s' % sorted(w.ip.fs), None)]
                        u = w.uff('work/out.uff')
                        return index_bad(w, u, [(c.typ, fmt_of(c), c.expect(tag(c.full(), k))) for k, c in enumerate(g)],
                                         'fixed file of %s' % [c.typ for c in g], each=False)
                    ctx.ob('fix_58b of %s%s%s%s' % ([c.typ for c in g], ' CRLF' if eol != '\n' else '', '' if isbad else ', nothing to fix',
                                                   '' if end else ', no newline at the end'), fn)
    for g in ([B], [A, B], [B, B2, A]):
        for eol in ('\n', '\r\n'):
            for isbad in (1, 0):
                for lead, mid, trail in ((eol * 2, '', ''), ('', eol, ''), ('', '', eol * 3), ('a text' + eol, 'notes -1' + eol, 'the end'),
                                         (' ' * 6 + eol, ' ' * 80 + eol, ' ' * 80 + eol), ('\0\0' + eol, '*' * 90 + eol + '      -1' + eol, '    -')):
                    def between(w, g=g, eol=eol, isbad=isbad, lead=lead, mid=mid, trail=trail):
                        good, bad_ = [lead], [lead]
                        for k, c in enumerate(g):
                            if k:
                                good.append(mid)
                                bad_.append(mid)
                            good += blk(c, k, 0, eol)
                            bad_ += blk(c, k, isbad, eol)
                        good.append(trail)
                        bad_.append(trail)
                        w.put(bad_)
                        w.call('fix_58b', PATH, 'work/out.uff')
                        got = content(w, 'work/out.uff')
                        if segs_of(mks(got, True)) != segs_of(mks(good, True)):
                            return [('text between', 'fix_58b of %s with text between the sets: %s instead of %s' % (
                                [c.typ for c in g], short(got[:3] + got[-3:]), short(good[:3] + good[-3:])), None)]
                        return []
                    ctx.ob('fix_58b of %s%s%s, around them %r' % ([c.typ for c in g], ' CRLF' if eol != '\n' else '',
                                                                '' if isbad else ', nothing to fix', (lead, mid, trail)), between)
    for last in ('\r', '\n', '\r\n', '\n\n', ' ', '\t', '\0', 'x'):
        for follow in ([], [A]):
            def fl(w, last=last, follow=follow):
                raw = (b'7' * B.meta['nbytes'])[:-len(last)] + last.encode()
                b = B.block(holding(B, tag(B.full(), 0), raw))
                good, bad_ = list(b), b[:-1] + ['\n'] + b[-1:]
                for c in follow:
                    good += blk(c, 1, 0)
                    bad_ += blk(c, 1, 0)
                w.put(bad_)
                w.call('fix_58b', PATH, 'work/out.uff')
                if segs_of(mks(content(w, 'work/out.uff'), True)) != segs_of(mks(good, True)):
                    return [('last bytes', 'fix_58b changes data that ends with %r: %s' % (last, short(content(w, 'work/out.uff')[-3:])), None)]
                return []
            ctx.ob('fix_58b of data ending with %r%s' % (last, ', more sets' if follow else ''), fl)

    for p, q in (('work/a.b/f.uff', 'work/a.b/f_fixed.uff'), ('work/f.v1.uff', 'work/f.v1_fixed.uff'), ('work/f', 'work/f_fixed'),
                 ('./work/f.uff', './work/f_fixed.uff'), ('work/.f', 'work/.f_fixed'), ('work/a.b/f', 'work/a.b/f_fixed'),
                 ('/work/f.UNV', '/work/f_fixed.UNV'), ('work/run 1/f g.unv', 'work/run 1/f g_fixed.unv'), ('f.uff', 'f_fixed.uff'),
                 ('../f.uff', '../f_fixed.uff')):
        def named(w, p=p, q=q):
            w.put(blk(B, 0, 1) + blk(A, 1, 1), p)
            before = content(w, p)
            w.call('fix_58b', p)
            if content(w, p) != before:
                return [('original', 'fix_58b changes the original file %r' % p, None)]
            if set(w.ip.fs) != {vkey(p), vkey(q)}:
                return [('name', 'fix_58b of %r leaves the files %s, not %r' % (p, sorted(w.ip.fs), q), None)]
            if segs_of(mks(content(w, q), True)) != segs_of(mks(blk(B, 0, 0) + blk(A, 1, 0), True)):
                return [('fixed file', 'fix_58b of %r: %s' % (p, short(content(w, q)[-4:])), None)]
            return []
        ctx.ob('default name for %r' % p, named)

    def errors(w):
        bad = []
        if w.raises(w.call, 'fix_58b', 'work/none.uff') is None:
            bad.append(('missing file', 'fix_58b of a missing file does not raise', None))
        if set(w.ip.fs) - {PATH}:
            bad.append(('missing file', 'fix_58b of a missing file writes %s' % sorted(w.ip.fs), None))
        return bad
    ctx.ob('fix_58b of a missing file', errors)


# ======================================================== C31 declared counts
@check('C31', 'abstract interpretation with stale counts given by the caller',
       'Every count a block declares (points, bytes, nodes of a trace, of an element, of groups, values per node) equals what the block '
       'holds, whatever count the caller\'s dictionary carries where the package derives it.', RT_NOTE, BASE)
def chk_c31(ctx):
    limits(ctx, 82, 2429, 2467, 58, 2412, 55, 2414)
    alike(ctx, 82, 2429, 2467, 58, 2412, 55, 2414)
    def ob(c, stale, lab):
        def fn(w, c=c, stale=stale):
            d = c.make()
            stale(d)
            u, d = write_case(w, c, d)
            return lines_bad(c, c.full(), need_file(w)) or diff(c.expect(c.full()), w.read(u), w.ip, c.name)
        ctx.ob('%s with %s' % (c.name, lab), fn)
    st = lambda k: atom('int', 'stale', k)
    for n in (1, 2, 3, 7, 8, 9, 16, 17):
        ob(c82(n), lambda d: d.update(n_nodes=st('n_nodes')), 'stale n_nodes')
        ob(c82(n), lambda d: d.pop('n_nodes', None), 'no n_nodes')
    for c in ctx.cases(58) + list(ctx.cases_binary()):
        if c.binary:
            m = c.meta
            c = c58(c.n, m['cplx'], m['even'], m['double'], 1, force=bool(m['double']))
        ob(c, lambda d: d.update(num_pts=st('num_pts'), n_bytes=st('n_bytes'), abscissa_min=atom('float', 'stale', 'm'),
                                 abscissa_inc=atom('float', 'stale', 'i')), 'stale counts')
        if not c.binary or c.n > 9:
            continue
        for stale in (0, 1, -1, 7, 80, 4000):
            ob(c, lambda d, v=stale: d.update(num_pts=v, n_bytes=v), 'stale counts %d' % stale)
    for t in (2429, 2467):
        for cnt in ((1,), (2,), (3, 2), (5, 4, 1), (0,), (8, 9)):
            c = cgroups(t, cnt)

            def stale(d):
                for g in d['groups']:
                    for k in ('number_of_entities_in_group', 'number_of_entities', 'number_entities'):
                        g[k] = st(k)
            ob(c, stale, 'stale number of entities')
    for c in ctx.cases(2412):
        ob(c, lambda d: None, 'its nodes')
    for shape in ([3, 7], [7, 3], [1, 6, 12], [6, 7, 6], [5], [12, 13]):
        c = c2414g(2, 1, len(shape), shape)
        ob(c, lambda d, n=len(shape): d.update(NDVAL=[st('NDVAL%d' % i) for i in range(n)]), 'stale NDVAL')
        ob(c, lambda d: d.pop('NDVAL'), 'no NDVAL')
    for c in ctx.cases(55) + ctx.cases(2414):
        ob(c, lambda d: None, 'its values')


# ======================================================== C32 public surface
@check('C32', 'name resolution and abstract interpretation of the exported functions',
       'The package exports the UFF class, every prepare and get_structure function and fix_58b; get_structure(raw=True) returns the '
       'documented structure text and prints nothing, raw=False prints that same text.', 'Every supported type.', BASE[:1])
def chk_c32(ctx):
    names = ['UFF', 'fix_58b', 'prepare_group'] + ['prepare_%d' % t for t in TYPES] + ['get_structure_%d' % t for t in TYPES]
    for n in names:
        def fn(w, n=n):
            v = w.pub(n)
            return [] if v is not None else [('missing ' + n, 'the package does not export %s' % n, None)]
        ctx.ob('exports ' + n, fn)

    def methods(w):
        u = w.uff()
        bad = []
        for m in ('get_supported_sets', 'get_n_sets', 'get_set_types', 'get_set_formats', 'get_file_name', 'file_exists', 'get_status',
                  'refresh', 'read_sets', 'write_sets'):
            if w.raises(w.ip.getattr, u, m):
                bad.append(('missing UFF.' + m, 'UFF has no method %s' % m, None))
        if w.meth(u, 'get_file_name') != PATH:
            bad.append(('file name', 'get_file_name() is %r' % w.meth(u, 'get_file_name'), None))
        v = w.call('UFF', fileName=PATH)
        if w.meth(v, 'get_file_name') != PATH:
            bad.append(('fileName', 'the argument fileName is not taken', None))
        v = w.call('UFF', filename=PATH)
        if w.meth(v, 'get_file_name') != PATH:
            bad.append(('filename', 'the argument filename is not taken', None))
        return bad
    ctx.ob('methods of UFF', methods)
    for t in TYPES:
        def st(w, t=t):
            f = 'get_structure_%d' % t
            n0 = len(w.ip.trace)
            s = w.call(f, raw=True)
            bad = []
            if not isinstance(s, str) or str(t) not in s or len(s.splitlines()) < 5:
                bad.append((f, '%s(raw=True) does not return the structure: %s' % (f, short(s, 60)), None))
            if any(e[0] == 'print' for e in w.ip.trace[n0:]):
                bad.append((f + ' prints', '%s(raw=True) prints' % f, None))
            for a, kw in (((), {'raw': 1}), ((True,), {}), ((1,), {}), ((), {'raw': 'text'})):
                if not same(w.call(f, *a, **kw), s):
                    bad.append((f, '%s(%s) does not return the structure' % (f, ', '.join(map(repr, a + tuple(kw.values())))), None))
            if any(e[0] == 'print' for e in w.ip.trace[n0:]):
                bad.append((f + ' prints', '%s prints though the text is asked for' % f, None))
            n0 = len(w.ip.trace)
            for kw in ({}, {'raw': False}, {'raw': 0}, {'raw': None}):
                r = w.call(f, **kw)
                ev = [e for e in w.ip.trace[n0:] if e[0] == 'print']
                n0 = len(w.ip.trace)
                if r is not None:
                    bad.append((f + ' returns', '%s() returns %s' % (f, short(r, 40)), None))
                if len(ev) != 1 or ev[0][3] != [s] and tuple(ev[0][3]) != (s,):
                    bad.append((f + ' prints', '%s() does not print the structure' % f, None))
            return bad
        ctx.ob('get_structure_%d' % t, st)


# ===================================================== C33 stable rewriting
@check('C33', 'abstract interpretation of read followed by write (fixed point on the text written)',
       'A data-set read from a block and written again gives the identical block, and reading that gives the same dictionary, so that '
       'copying a file through the package does not change it.', RT_NOTE, BASE)
def chk_c33(ctx):
    for t in TYPES:
        for c in ctx.cases(t):
            def fn(w, c=c):
                u, d = write_case(w, c)
                a = content(w)
                got = w.read(u)
                v = w.uff('work/copy.uff')
                w.write(v, got, **kw_of(c))
                b = content(w, 'work/copy.uff')
                if a != b:
                    la, lb = ssplitlines(mks(a, True)), ssplitlines(mks(b or [], True))
                    for i, (x, y) in enumerate(zip(la, lb)):
                        if x != y:
                            return [('%s: rewritten' % c.typ, '%s: line %d is %r, after reading and writing %r' % (c.name, i + 1, x, y),
                                     content_loc(y))]
                    return [('%s: rewritten' % c.typ, '%s: %d lines, after reading and writing %d' % (c.name, len(la), len(lb)), None)]
                return []
            ctx.ob('rewritten: ' + c.name, fn)
        for c in rep(ctx, t):
            def fr(w, c=c):
                # a block that another program wrote
                w.put(c.block(c.full()))
                got = w.read(w.uff())
                v = w.uff('work/copy.uff')
                w.write(v, got, **kw_of(c))
                return diff(c.expect(c.full()), w.read(v), w.ip, 'copy of a documented block of ' + c.name)
            ctx.ob('documented block copied: ' + c.name, fr)
    for c in BIN:
        def fb(w, c=c):
            u, d = write_case(w, c)
            a = content(w)
            got = w.read(u)
            v = w.uff('work/copy.uff')
            w.write(v, got, **kw_of(c))
            return [] if content(w, 'work/copy.uff') == a else [('58b: rewritten', '%s is written differently after reading' % c.name, None)]
        ctx.ob('rewritten: ' + c.name, fb)

    def whole(w):
        cs = [c15(2), BIN[0], c82(3), c164(), c2411(2)]
        u = w.uff()
        w.write(u, [c.make() for c in cs])
        v = w.uff('work/copy.uff')
        w.write(v, w.read(u))
        return [] if content(w) == content(w, 'work/copy.uff') else [('file rewritten', 'a file of five sets is changed by copying', None)]
    ctx.ob('a whole file copied', whole)


def untag(v, k):
    if isinstance(v, Sym) and v.term[0] == 'a':
        return v.with_(term=tuple(x for x in v.term if x != '#%s' % k))
    if isinstance(v, Arr):
        return Arr([untag(x, k) for x in v.elems()], v.shape, v.dt)
    return v


def data_terms(t):
    if isinstance(t, tuple):
        if t[:2] == ('a', 'data'):
            return [t]
        return [y for x in t for y in data_terms(x)]
    return []


# ======================================================== C34 nan and infinity
def scenarios(n):
    """which values are not finite"""
    yield 'all finite', lambda i: None
    for cls in ('nan', 'inf', '-inf'):
        for i in sorted({0, n - 1}):
            yield '%s at %d' % (cls, i), lambda j, i=i, cls=cls: cls if j == i else None
        yield 'all ' + cls, lambda j, cls=cls: cls
    if n > 1:
        yield 'nan and inf', lambda j: 'nan' if j == 0 else 'inf' if j == n - 1 else None


def not_finite(w, sc, key='data'):
    """from here on some values of the key are not finite; nan_to_num makes them finite"""
    def finite(v):
        if isinstance(v, Arr):
            return Arr([finite(x) for x in v.elems()], v.shape, v.dt)
        if isinstance(v, Sym) and v.term[0] == 'cplx':
            return v.with_(term=('cplx',) + tuple(t + ('#finite',) if isinstance(t, tuple) and t[0] == 'a' and '#finite' not in t else t
                                                  for t in v.term[1:]))
        return tag(untag(v, 'finite'), 'finite')
    w.ip.nonfin = lambda t: (sc(t[2], t[3]) if len(t) > 3 and t[3] in ('re', 'im') else sc(t[2])) \
        if t[:2] == ('a', key) and '#finite' not in t else None
    w.ip.nan_tag = finite


def in_parts(n):
    """complex data of unknown real and imaginary parts"""
    return Arr([mk_cplx(('a', 'data', i, 're'), ('a', 'data', i, 'im')) for i in range(n)], None, 'c16')


def part_scenarios(n):
    for cls in ('nan', 'inf', '-inf'):
        for part in ('re', 'im'):
            for i in sorted({0, n - 1}):
                yield '%s at %d, %s' % (cls, i, part), lambda j, p, i=i, part=part, cls=cls: cls if j == i and p == part else None
            yield 'all %s, %s' % (cls, part), lambda j, p, part=part, cls=cls: cls if p == part else None
    yield 'nan and inf in the parts', lambda j, p: 'nan' if p == 're' else 'inf'
    yield 'inf and nan in the parts', lambda j, p: 'inf' if p == 're' else 'nan'


@check('C34', 'taint analysis by abstract interpretation (no value that is not finite reaches the file)',
       'Which values of the key data are not finite is fixed by a scenario (none, nan, infinite, the first, the last, all); tests such as isnan or '
       'isfinite follow it and nan_to_num makes values finite; every term that reaches the file must be finite, and all values must when all are finite.',
       RT_NOTE, BASE[:2])
def chk_c34(ctx):
    for c in [x for n in (1, 3) for x in (c58(n, 0, 1, 1, 0), c58(n, 1, 0, 1, 0), c58(n, 0, 0, 1, 1), c58(n, 1, 1, 1, 1),
                                          c58(n, 1, 0, 0, 0, force=False), c58(n, 0, 1, 0, 1, force=False))]:
        for mode in ('add', 'overwrite'):
            for lab, sc in list(scenarios(c.n)) + (list(part_scenarios(c.n)) if c.meta['cplx'] else []):
                def fn(w, c=c, mode=mode, sc=sc, lab=lab):
                    d = c.make()
                    parts = sc.__code__.co_argcount - len(sc.__defaults__ or ()) > 1
                    if parts:
                        d['data'] = in_parts(c.n)
                    not_finite(w, sc)
                    kw = kw_of(c)
                    w.write(w.uff(), d, mode=mode, **kw)
                    seen = set()
                    for sg in segs_of(need_file(w)):
                        if isinstance(sg, TopSeg):
                            raise Undecided('text not known: %s' % sg.why)
                        if isinstance(sg, str):
                            if 'nan' in sg.lower().split() or 'inf' in sg.lower().split():
                                return [('not sanitized', '%s: %r is written' % (c.name, sg[:40]), None)]
                            continue
                        t = getattr(getattr(sg, 'sym', None), 'term', None)
                        for a in data_terms(t):
                            seen.add((a[2], a[3]) if len(a) > 3 and a[3] in ('re', 'im') else (a[2],))
                            if w.ip.nonfin(a):
                                return [('not sanitized', '%s: %s, which is not finite, is written (%s)' % (c.name, showterm(a), lab),
                                         getattr(sg, 'loc', None))]
                    keys = [(i, p) for i in range(c.n) for p in ('re', 'im')] if parts else \
                        [(i,) for i in range(c.n)]
                    lost = [k for k in keys if not any(sc(*q) for q in keys if q[0] == k[0]) and k not in seen]
                    if lost:
                        return [('values', '%s: finite values are not written: %s (%s)' % (c.name, lost[:3], lab), None)]
                    return []
                ctx.ob('%s, %s, %s' % (c.name, mode, lab), fn)
    # numbers themselves: what stands for infinity must fit the precision that is written
    inf, nan = math.inf, math.nan
    for cplx, even, double, binary in itertools.product((0, 1), repeat=4):
        for dt, hint in (('f8', None), ('f4', None), ('f8', 4), ('f8', 2), ('f4', 4)):
            for vals in ((1.5, inf, -2.25), (-inf, nan, 0.5), (nan, 3.5, inf), (1.5, -2.25, 0.5)):
                c = c58(3, cplx, even, double, binary, force=bool(double))

                def fc(w, c=c, dt=dt, hint=hint, vals=vals, cplx=cplx):
                    d = c.make()
                    d['data'] = Arr([complex(v, -v) if k % 2 else complex(2.5, v) for k, v in enumerate(vals)], None,
                                    {'f8': 'c16', 'f4': 'c8'}[dt]) if cplx else Arr(list(vals), None, dt)
                    d['x'] = Arr([0.0, 0.5, 1.0], None, 'f8')
                    if hint:
                        d['ord_data_type'] = hint
                    want = [(x.real, x.imag) if cplx else (x,) for x in d['data'].elems()]
                    u = w.uff()
                    w.write(u, d, **kw_of(c))
                    got = w.read(u).get('data')
                    got = [(re_(x), im_(x)) if cplx else (x,) for x in norm(got)]
                    if len(got) != len(want):
                        return [('values', '%s: %d values for %d' % (c.name, len(got), len(want)), None)]
                    for p, q in zip(want, got):
                        for x, y in zip(p, q):
                            if not isinstance(y, (int, float)) or not math.isfinite(y) or math.isfinite(x) and x != y:
                                return [('values', '%s: %s is read as %s' % (c.name, x, short(y)), None)]
                    return []
                ctx.ob('%s, data %s of %s%s' % (c.name, list(vals), dt, ', ord_data_type %d' % hint if hint else ''), fc)


# ========================================================= C35 payload bytes
def holding(c, d, raw):
    """the data-set d with the bytes raw as the data; x is unknown unless it is among them"""
    n, m = c.n, c.meta
    per = (2 if m['cplx'] else 1) + (0 if m['even'] else 1)
    assert len(raw) == n * per * Bin.SIZE[c.fmt], (len(raw), c.name)
    v = struct.unpack(('<' if m['bo'] == 'little' else '>') + '%d%s' % (n * per, c.fmt), raw)
    p = [v[i * per:(i + 1) * per] for i in range(n)]
    d = dict(d)
    if not m['even']:
        d['x'] = Arr([x[0] for x in p], None, 'f8')
        p = [x[1:] for x in p]
    d['data'] = Arr([complex(*x) if m['cplx'] else x[0] for x in p], None, 'c16' if m['cplx'] else 'f8')
    return d


def bearing(pat, size, bo='little', at=None, **kw):
    """a binary data-set 58 and its data with the pattern in the middle, or at the beginning or the end"""
    per = (2 if kw['cplx'] else 1) + (0 if kw['even'] else 1)
    step = per * (8 if kw['double'] else 4)
    n = -(-max(size, len(pat)) // step)
    fill = (b'7' * (n * step - len(pat)))
    cut = len(fill) // 2 if at is None else len(fill) - at if at < 0 else at
    cut = max(0, min(len(fill), len(fill) + 1 + at if at is not None and at < 0 else cut))
    return c58(n, binary=1, force=bool(kw['double']), bo=bo, **kw), fill[:cut] + pat + fill[cut:]


TAGS = [b'\n    -1\n', b'    -1\n', b'\n    -1', b'\r\n    -1\r\n', b'\n    -1\n    -1\n', b'\n    -1' + b' ' * 74 + b'\n',
        b'\n    -1\n    15\n         1         1\n    -1\n', b'\n    -1\n    58b     1     2          11          16     0     0\n',
        b'\n    -1\n    -1\n    58\nNONE\n', b'-1\n', b'\n', b'\r\n', b'\r', b'  ', b'\n\n\n', b'\t', b'\0', b'-1', b'1\n    ', b'\n    ']
BKIND = [dict(cplx=0, even=1, double=1), dict(cplx=1, even=0, double=1), dict(cplx=0, even=1, double=0), dict(cplx=1, even=0, double=0),
         dict(cplx=1, even=1, double=1), dict(cplx=0, even=0, double=0)]


@check('C35', 'abstract interpretation of writing, indexing and reading binary data made of the bytes of tags and line endings',
       'A file whose binary data hold the bytes of tags, of line endings or of a whole data-set is written, indexed, read, selected, '
       'extended and repaired like any other: the declared number of bytes tells where the data end.',
       'Patterns of tag lines at every offset within a word and at both ends of the data; real and complex, even and uneven, single and '
       'double precision; alone and with neighbours; declared numbers that are missing or wrong leave the index as the tags give it.', BASE)
def chk_c35(ctx):
    A = c15(2)
    todo = []
    for j, pat in enumerate(TAGS):
        for i, kind in enumerate(BKIND if ctx.deep else BKIND[:1] + [BKIND[1 + j % (len(BKIND) - 1)]]):
            for at in (0, -1) + (tuple(range(3, 11)) if (j < 3 or ctx.deep) and i == 0 else (5,)):
                todo.append((pat, kind, at))
    for k, (pat, kind, at) in enumerate(todo):
        c, raw = bearing(pat, 24, at=at, **kind)
        B, wide = bearing(pat, 40, at=5, **BKIND[k % len(BKIND)])
        for g in (([(c, raw)], [(A, None), (c, raw), (A, None)], [(c, raw), (B, wide), (A, None)]) if ctx.deep or k % 3 == 0 else
                  ([(c, raw), (A, None)],)):
            if len({x.meta['double'] for x, r in g if r}) > 1:
                continue

            def fn(w, g=g, c=c, raw=raw):
                ds = [tag(x.full(), i) if r is None else holding(x, tag(x.full(), i), r) for i, (x, r) in enumerate(g)]
                u = w.uff()
                what = 'file of %s' % [x.typ for x, r in g]
                w.write(u, [dict(d) for d in ds] if len(ds) > 1 else dict(ds[0]), mode='overwrite', force_double=bool(c.meta['double']))
                need_file(w)
                got = content(w)
                exp = [(x.typ, fmt_of(x), x.expect(dict(d))) for (x, r), d in zip(g, ds)]
                if not same_text(w, g, got, raw):
                    return [('bytes', '%s: the bytes of the data are not in the file as they are' % what, None)]
                bad = index_bad(w, u, exp, what + ' written')
                bad += index_bad(w, w.uff(), exp, what + ' opened')
                if bad:
                    return bad
                f = w.uff()
                for i, e in enumerate(exp):
                    for h in (False, True):
                        one = w.read(f, [i], **({'header_only': True} if h else {}))
                        one = one[0] if isinstance(one, list) and len(one) == 1 else one
                        if not isinstance(one, dict) or not same(one.get('type'), e[0]):
                            bad.append(('selection', '%s: read_sets([%d]%s) gives %s' % (what, i, ', header_only' if h else '', short(one)), None))
                # the file is extended
                extra = tag(A.full(), 'x')
                w.write(u, dict(extra))
                bad += index_bad(w, u, exp + [(15, 0, A.expect(extra))], what + ' extended', each=False)
                bad += index_bad(w, w.uff(), exp + [(15, 0, A.expect(extra))], what + ' extended, opened', each=False)
                return bad
            ctx.ob('data with %r at %d: %s %s' % (pat[:24], at, c.label, [x.typ for x, r in g]), fn)

        def foreign(w, pat=pat, kind=kind, at=at):
            bad = []
            for bo in ('little', 'big'):
                c, raw = bearing(pat, 24, bo=bo, at=at, **kind)
                for eol in ('\n', '\r\n'):
                    ds = [tag(A.full(), 0), holding(c, tag(c.full(), 1), raw), tag(A.full(), 2)]
                    cs = [A, c, A]
                    w.put([s for x, d in zip(cs, ds) for s in x.block(d, eol=eol, **({'bo': bo} if x.binary else {}))])
                    bad += index_bad(w, w.uff(), [(x.typ, fmt_of(x), x.expect(dict(d))) for x, d in zip(cs, ds)],
                                     'file with %s-endian data and %r' % (bo, eol), each=False)
            return bad
        if ctx.deep or k % 2 == 0:
            ctx.ob('foreign file with %r at %d: %s' % (pat[:24], at, c.label), foreign)

    # the repair of damaged files
    for j, pat in enumerate(TAGS):
        for at in (0, -1, 5):
            def fix(w, pat=pat, at=at, kind=BKIND[j % len(BKIND)]):
                c, raw = bearing(pat, 24, at=at, **kind)
                ds = [holding(c, tag(c.full(), 1), raw), tag(A.full(), 2), holding(c, tag(c.full(), 3), raw)]
                cs = [c, A, c]
                for eol in ('\n', '\r\n'):
                    good, hurt = [], []
                    for x, d in zip(cs, ds):
                        b = x.block(d, eol=eol)
                        good += b
                        hurt += b[:-1] + [eol] + b[-1:] if x.binary else b
                    for src in (good, hurt):
                        w.put(src)
                        w.call('fix_58b', PATH, 'work/out.uff')
                        if segs_of(mks(content(w, 'work/out.uff'), True)) != segs_of(mks(good, True)):
                            return [('fixed file', 'fix_58b of data with %r (%r, end tags %s): %s' % (
                                pat, eol, 'moved' if src is hurt else 'in place', short(content(w, 'work/out.uff')[-4:])), None)]
                return index_bad(w, w.uff('work/out.uff'), [(x.typ, fmt_of(x), x.expect(dict(d))) for x, d in zip(cs, ds)], 'fixed file',
                                 each=False)
            ctx.ob('repair of data with %r at %d' % (pat[:24], at), fix)

    # wrong declared numbers: the tags tell
    for B in BIN:
        for num in ('', '0', '-1', '-8', '1', '7', str(B.meta['nbytes'] - 1), str(B.meta['nbytes'] + 1), str(B.meta['nbytes'] + 8), '99999999',
                    '999999999999', 'x', '1.5', '1e3', '12 4'):
            def odd(w, num=num, B=B):
                raw = (b'QRSTUVWX' * B.meta['nbytes'])[:B.meta['nbytes']]
                good = [(A, tag(A.full(), 0)), (B, holding(B, tag(B.full(), 1), raw)), (B, holding(B, tag(B.full(), 2), raw)),
                        (A, tag(A.full(), 3))]
                segs = []
                for x, d in good:
                    b = x.block(d)
                    if x.binary:
                        t = mks(b, True)
                        p = slen(mks(b[:1], True))
                        b = segs_of(sslice(t, 0, p + 31)) + ['%12s' % num] + segs_of(sslice(t, p + 43, slen(t)))
                    segs += b
                w.put(segs)
                return index_bad(w, w.uff(), [(x.typ, fmt_of(x), None) for x, d in good], 'declared number of bytes %r' % num, read=False)
            ctx.ob('declared number of bytes %r: %s' % (num, B.label), odd)


def same_text(w, g, got, raw):
    """do the bytes of the data stand in the file?"""
    t = raw.decode('latin-1')
    return any(isinstance(s, str) and t in s for s in segs_of(mks(got, True)))
