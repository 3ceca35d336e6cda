"""What the universal file format documents for each data-set: the fixed columns
of every record, and the dictionary key each column carries.  Nothing here is
taken from the code that writes or reads the records."""
from .dom import *


# ----------------------------------------------------------------- columns
class Cell:
    __slots__ = ('kind', 'w', 'p', 'v', 'd', 'last')

    def __init__(self, kind, w, v=None, p=None, d=False):
        self.kind, self.w, self.v, self.p, self.d = kind, w, v, p, d

    def __repr__(self):
        n = {'I': 'I%d', 'S': 'A%d', 'X': '%dX'}.get(self.kind)
        if n:
            n = n % self.w
        else:
            n = '%s%d.%d' % ('D' if self.d else 'E', self.w, self.p)
        return n + ('=' + repr(self.v) if self.kind != 'X' else '')


def I(w, v):
    return Cell('I', w, v)


def E(w, p, v):
    return Cell('E', w, v, p)


def D(w, p, v):
    return Cell('E', w, v, p, True)


def S(w, v):
    return Cell('S', w, v)


def X(w):
    return Cell('X', w)


def Is(w, vs):
    return [I(w, v) for v in vs]


def Es(w, p, vs):
    return [E(w, p, v) for v in vs]


def chunks(cells, n):
    return [cells[i:i + n] for i in range(0, len(cells), n)]


def text(cells, big=False, left=False, full=False):
    """the line as another program would write it.  big: upper case / D exponents ('low': d exponents)"""
    segs = []
    for c in cells:
        v = c.v
        if c.kind == 'X':
            segs.append(' ' * c.w)
        elif c.kind == 'I':
            segs.append(Fld(v, 'i', c.w) if isinstance(v, Sym) else '%*d' % (c.w, v))
        elif c.kind == 'E':
            # the number of digits the field has room for: sign, digit, point, digits, exponent
            p = c.p
            if isinstance(v, Sym):
                e = ('d' if c.d else 'e') if big == 'low' else ('D' if c.d else 'E') if big else 'e'
                segs.append(Fld(v, 'E' if big and big != 'low' else 'e', c.w, p, epos=e, eneg=e))
            else:
                s = '%*.*e' % (c.w, p, v)
                segs.append(s.replace('e', ('d' if c.d else 'e') if big == 'low' else 'D' if c.d else 'E') if big else s)
        else:
            if isinstance(v, Sym):
                segs.append(Fld(v, 's', c.w, None, True))
            else:
                segs.append(str(v).ljust(c.w)[:c.w])
    return segs


def norm(v):
    """container of scalars, whatever holds them"""
    if isinstance(v, Arr):
        return norm(v.nested())
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    return v


def same(a, b):
    """do two values of the analysed program denote the same content?"""
    a, b = norm(a), norm(b)
    if isinstance(a, Top) or isinstance(b, Top):
        raise Undecided('value not known: %r' % (a if isinstance(a, Top) else b))
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return False
        return all(same(a[k], b[k]) for k in a)
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, AStr) or isinstance(b, AStr):
        return isinstance(a, AStr) and isinstance(b, AStr) and a == b
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, Sym) and isinstance(b, Sym):
            sa, sb = a.kind in ('str', 'bytes'), b.kind in ('str', 'bytes')
            return sa == sb and eqterm(a, b)
        if iscomplex(a) or iscomplex(b):
            if isinstance(a, Sym) and a.kind == 'complex' and isinstance(b, Sym) or isinstance(a, NUM) or isinstance(b, NUM):
                return pair(a) == pair(b)
        return False
    if type(a) is str or type(b) is str or a is None or b is None:
        return a == b and type(a) is type(b)
    return a == b


def eqterm(a, b):
    if a.kind == 'complex' or b.kind == 'complex':
        return tuple(map(strip_f4, pair(a))) == tuple(map(strip_f4, pair(b)))
    return strip_f4(a.term) == strip_f4(b.term)


# ------------------------------------------------------------------- atoms
def ints(name, n, **kw):
    return Arr([atom('int', name, i, **kw) for i in range(n)], None, 'i8')


def flts(name, n):
    return Arr([atom('float', name, i) for i in range(n)], None, 'f8')


def cpxs(name, n):
    return Arr([atom('complex', name, i) for i in range(n)], None, 'c16')


def mat(name, n, m):
    return Arr([atom('float', name, i, j) for i in range(n) for j in range(m)], (n, m), 'f8')


def i_(name):
    return atom('int', name)


def f_(name):
    return atom('float', name)


def t_(name, ml=None):
    return atom('str', name, ml=ml)


def el(v, i):
    return v.elems()[i] if isinstance(v, Arr) else v[i]


class Exp(dict):
    """what a reading gives; high: the terms whose documented precision is more than single"""
    high = frozenset()


class Case:
    """One shape of one data-set.

    req/opt: key -> value maker; defaults: key -> documented default (maker or value)
    body(d): records after the type line; expect(d): what reading gives back"""

    def __init__(self, typ, label, req, opt, defaults, body, expect=None, n=None, **kw):
        self.typ, self.label = typ, label
        self.req, self.opt, self.defaults = req, opt, defaults
        self._body, self._expect = body, expect
        self.n = n
        self.force_double = kw.pop('force_double', None)
        self.binary = kw.pop('binary', None)      # d -> list of (value); needs fmt
        self.fmt = kw.pop('fmt', 'd')
        self.typeline = kw.pop('typeline', None)
        self.readonly = kw.pop('readonly', False)
        self.derived = kw.pop('derived', ())      # keys the writer documents to set
        self.raw = kw.pop('raw', None)
        assert not kw, kw

    @property
    def name(self):
        return '%s%s' % (self.typ, ' ' + self.label if self.label else '')

    def make(self, omit=(), ml=True):
        """fresh dictionary; ml False: texts of any length"""
        d = {'type': self.typ}
        for src in (self.req, self.opt):
            for k, mk in src.items():
                if k in omit:
                    continue
                v = mk() if callable(mk) else mk
                d[k] = v if ml else unbound(v)
        return d

    def full(self, omit=()):
        """the dictionary with the documented defaults filled in"""
        d = self.make(omit)
        for k, v in self.defaults.items():
            if k not in d:
                d[k] = v() if callable(v) else v
        return d

    def body(self, d):
        return self._body(d)

    def expect(self, d):
        e = {k: v for k, v in d.items()}
        if self._expect:
            e = self._expect(dict(d))
        e['type'] = self.typ
        e = Exp(e)
        try:
            vals = [c.v for r in self.body(dict(d)) for c in r if c.kind == 'E' and (c.p or 0) > 6]
            if self.binary and self.fmt == 'd':
                vals += list(self.binary(dict(d)))
        except (KeyError, TypeError, IndexError, AttributeError):
            vals = []
        e.high = frozenset(t for v in vals if isinstance(v, Sym) for t in pair(v))
        return e

    def head(self, d, bo='little'):
        if self.typeline:
            return self.typeline(d, bo)
        return [I(6, self.typ)]

    def words(self, d, bo):
        b = '<' if bo == 'little' else '>'
        return [binw(v, self.fmt, b) for v in self.binary(d)]

    def block(self, d, big=False, eol='\n', bo='little', ends=None):
        """the file another program would write: segments.
        ends: 'padded' records of 80 columns, 'trimmed' records without blanks at their end"""
        out = ['    -1' + (' ' * 74 if ends == 'padded' else '') + eol]
        for ln in [self.head(d, bo)] + self.body(d):
            sg = text(ln, big)
            if ends == 'padded':
                n = sum(seglen(x) for x in sg)
                sg = sg + [' ' * (80 - n)]
            elif ends == 'trimmed':
                while sg and isinstance(sg[-1], str):
                    sg[-1] = sg[-1].rstrip()
                    if sg[-1]:
                        break
                    sg.pop()
            out += sg + [eol]
        if self.binary:
            out += self.words(d, bo)
        out += ['    -1' + eol]
        return out


def unbound(v):
    if isinstance(v, Sym) and v.kind == 'str':
        return v.with_(ml=None)
    if isinstance(v, list):
        return [unbound(x) for x in v]
    if isinstance(v, dict):
        return {k: unbound(x) for k, x in v.items()}
    return v


# ------------------------------------------------------------------ 15
def c15(n):
    req = {'node_nums': lambda: ints('node_nums', n), 'x': lambda: flts('x', n), 'y': lambda: flts('y', n),
           'z': lambda: flts('z', n)}
    opt = {k: (lambda k=k: ints(k, n)) for k in ('def_cs', 'disp_cs', 'color')}
    de = {k: [0] * n for k in opt}

    def body(d):
        return [Is(10, [el(d[k], i) for k in ('node_nums', 'def_cs', 'disp_cs', 'color')]) +
                Es(13, 5, [el(d[k], i) for k in 'xyz']) for i in range(n)]
    return Case(15, 'n=%d' % n, req, opt, de, body, n=n)


# ------------------------------------------------------------------ 18
def c18(n):
    req = {'cs_num': lambda: ints('cs_num', n), 'ref_cs_num': lambda: ints('ref_cs_num', n),
           'ref_o': lambda: mat('ref_o', n, 3), 'x_point': lambda: mat('x_point', n, 3),
           'xz_point': lambda: mat('xz_point', n, 3)}
    opt = {'cs_type': lambda: ints('cs_type', n), 'color': lambda: ints('color', n), 'method': lambda: ints('method', n),
           'cs_name': lambda: [atom('str', 'cs_name', i, ml=40) for i in range(n)]}
    de = {'cs_type': [0] * n, 'color': [0] * n, 'method': [1] * n, 'cs_name': [''] * n}

    def body(d):
        r = []
        for i in range(n):
            r.append(Is(10, [el(d[k], i) for k in ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method')]))
            r.append([S(40, d['cs_name'][i])])
            r.append(Es(13, 5, [el(d['ref_o'], 3 * i + j) for j in range(3)] + [el(d['x_point'], 3 * i + j) for j in range(3)]))
            r.append(Es(13, 5, [el(d['xz_point'], 3 * i + j) for j in range(3)]))
        return r
    return Case(18, 'n=%d' % n, req, opt, de, body, n=n)


# ------------------------------------------------------------------ 82
def c82(n):
    req = {'trace_num': lambda: i_('trace_num'), 'nodes': lambda: ints('nodes', n, nz=True)}
    opt = {'id': lambda: t_('id', 80), 'color': lambda: i_('color'), 'n_nodes': lambda: n}
    de = {'id': 'NONE', 'color': 0, 'n_nodes': n}

    def body(d):
        return [Is(10, [d['trace_num'], n, d['color']]), [S(80, d['id'])]] + chunks(Is(10, d['nodes'].elems()), 8)
    return Case(82, 'n=%d' % n, req, opt, de, body, n=n)


def c82z(pat):
    """pat: '0' a pen lift, 'x' a node"""
    c = c82(len(pat))
    c.label = 'nodes ' + pat
    m = len(pat.rstrip('0'))
    cnt = min(m + 1, len(pat))
    c.req['nodes'] = lambda: Arr([0 if ch == '0' else atom('int', 'nodes', i, nz=True) for i, ch in enumerate(pat)], None, 'i8')
    c.opt['n_nodes'] = lambda: cnt
    c.defaults['n_nodes'] = cnt
    c._body = lambda d: [[I(10, d['trace_num']), I(10, cnt), I(10, d['color'])], [S(80, d['id'])]] + chunks(Is(10, d['nodes'].elems()), 8)
    return c


# ----------------------------------------------------------------- 151
def c151():
    req = {k: (lambda k=k: t_(k, 80)) for k in ('model_name', 'description', 'db_app', 'program')}
    opt = {k: (lambda k=k: t_(k, 10)) for k in ('date_db_created', 'time_db_created', 'date_db_saved', 'time_db_saved',
                                                'date_file_written', 'time_file_written')}
    opt.update({k: (lambda k=k: i_(k)) for k in ('version_db1', 'version_db2', 'file_type')})
    NOW = object()
    de = {k: 0 for k in ('version_db1', 'version_db2', 'file_type')}

    def body(d):
        return [[S(80, d['model_name'])], [S(80, d['description'])], [S(80, d['db_app'])],
                [S(10, d['date_db_created']), S(10, d['time_db_created'])] +
                Is(10, [d['version_db1'], d['version_db2'], d['file_type']]),
                [S(10, d['date_db_saved']), S(10, d['time_db_saved'])], [S(80, d['program'])],
                [S(10, d['date_file_written']), S(10, d['time_file_written'])]]
    return Case(151, '', req, opt, de, body)


# ----------------------------------------------------------------- 164
def c164():
    req = {'units_code': lambda: i_('units_code'), 'length': lambda: f_('length'), 'force': lambda: f_('force'),
           'temp': lambda: f_('temp'), 'temp_offset': lambda: f_('temp_offset')}
    opt = {'units_description': lambda: t_('units_description', 20), 'temp_mode': lambda: i_('temp_mode')}
    de = {'units_description': 'User unit system', 'temp_mode': 1}

    def body(d):
        return [[I(10, d['units_code']), S(20, d['units_description']), I(10, d['temp_mode'])],
                [D(25, 17, d[k]) for k in ('length', 'force', 'temp')], [D(25, 17, d['temp_offset'])]]
    return Case(164, '', req, opt, de, body)


# ---------------------------------------------------------------- 1858
K1858 = ('weighting_type', 'window_type', 'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier',
         'ordinate_numerator_data_type_qualifier', 'ordinate_denominator_data_type_qualifier',
         'z_axis_data_type_qualifier', 'sampling_type')


def c1858():
    ik = ('record_num', 'octave_format', 'measurement_run') + K1858
    fk = ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples', 'user_value_1', 'user_value_2',
          'user_value_3', 'user_value_4', 'exponential_window_damping_factor')
    req = {k: (lambda k=k: i_(k)) for k in ik}
    req.update({k: (lambda k=k: f_(k)) for k in fk})
    req.update({k: (lambda k=k: t_(k, 4)) for k in ('response_direction', 'reference_direction')})

    def body(d):
        return [Is(12, [d[k] for k in ik[:3]] + [0, 0, 0]), Is(6, [d[k] for k in K1858] + [0, 0, 0]),
                Es(15, 7, [d[k] for k in fk[:4]] + [0]), Es(15, 7, [d[k] for k in fk[4:]]), Es(15, 7, [0] * 5),
                [S(4, d['response_direction']), X(2), S(4, d['reference_direction'])], [S(80, 'NONE')]]
    return Case(1858, '', req, {}, {}, body)


# ---------------------------------------------------------------- 2400
def c2400():
    ik = ('model_uid', 'entity_type', 'entity_subtype', 'version_number', 'idm_version_id', 'idm_item_id',
          'primary_parent_uid', 'optimization_switches')
    opt = {k: (lambda k=k: i_(k)) for k in ik}
    opt.update({'entity_name': lambda: t_('entity_name', 80), 'part_number': lambda: t_('part_number', 80),
                'date': lambda: t_('date', 10), 'time': lambda: t_('time', 10),
                'status_mask': lambda: [atom('int', 'status_mask', i) for i in range(32)]})
    de = {k: 0 for k in ik}
    de.update({'entity_name': '', 'part_number': '', 'date': '', 'time': '', 'status_mask': [0] * 32})

    def body(d):
        return [[I(12, d['model_uid']), I(6, d['entity_type']), I(6, d['entity_subtype']), I(12, d['version_number'])],
                [S(80, d['entity_name'])], [S(80, d['part_number'])],
                Is(2, [el(d['status_mask'], i) for i in range(32)]),
                [S(10, d['date']), S(10, d['time'])] + Is(12, [d[k] for k in ('idm_version_id', 'idm_item_id', 'primary_parent_uid')]),
                [I(12, d['optimization_switches'])]]
    return Case(2400, '', {}, opt, de, body)


# ---------------------------------------------------------------- 2411
def c2411(n):
    req = {k: (lambda k=k: ints(k, n)) for k in ('node_nums', 'def_cs', 'disp_cs', 'color')}
    req.update({k: (lambda k=k: flts(k, n)) for k in 'xyz'})

    def body(d):
        r = []
        for i in range(n):
            r.append(Is(10, [el(d[k], i) for k in ('node_nums', 'def_cs', 'disp_cs', 'color')]))
            r.append([D(25, 16, el(d[k], i)) for k in 'xyz'])
        return r
    return Case(2411, 'n=%d' % n, req, {}, {}, body, n=n)


# ---------------------------------------------------------------- 2412
BEAMS = (11, 21, 22, 23, 24)
EKEYS = ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes')


def c2412(spec):
    """spec: list of (fe descriptor, [node counts])"""
    def elem(fe, k, m):
        a = lambda key, **kw: atom('int', key, fe, k, **kw)
        e = {'element_nums': a('element_nums'), 'fe_descriptor': fe, 'phys_table': a('phys_table'),
             'mat_table': a('mat_table'), 'color': a('color'), 'num_nodes': m,
             'nodes_nums': [atom('int', 'nodes_nums', fe, k, i) for i in range(m)]}
        if fe in BEAMS:
            for key in ('beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross'):
                e[key] = a(key)
        return e
    req = {fe: (lambda fe=fe, ms=ms: [elem(fe, k, m) for k, m in enumerate(ms)]) for fe, ms in spec}

    def body(d):
        r = []
        for fe, ms in spec:
            for e in d[fe]:
                r.append(Is(10, [e[k] for k in EKEYS]))
                if fe in BEAMS:
                    r.append(Is(10, [e[k] for k in ('beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross')]))
                r += chunks(Is(10, e['nodes_nums']), 8) or [[]]
        return r

    def expect(d):
        for fe, leg in ((41, 'triangle'), (44, 'quad')):
            if fe in d:
                d[leg] = {k: [e[k] for e in d[fe]] for k in EKEYS + ('nodes_nums',)}
        return d
    return Case(2412, '+'.join('%d(%s)' % (fe, ','.join(map(str, ms))) for fe, ms in spec), req, {}, {}, body, expect)


# ---------------------------------------------------------------- 2420
def c2420(n):
    req = {'CS_sys_labels': lambda: [atom('int', 'CS_sys_labels', i) for i in range(n)],
           'CS_names': lambda: [atom('str', 'CS_names', i, ml=40) for i in range(n)],
           'CS_matrices': lambda: [Arr([atom('float', 'CS_matrices', k, i, j) for i in range(4) for j in range(3)], (4, 3), 'f8')
                                   for k in range(n)]}
    opt = {'Part_UID': lambda: i_('Part_UID'), 'Part_Name': lambda: t_('Part_Name', 40),
           'CS_types': lambda: [atom('int', 'CS_types', i) for i in range(n)],
           'CS_colors': lambda: [atom('int', 'CS_colors', i) for i in range(n)]}
    de = {'Part_UID': 1, 'Part_Name': 'None', 'CS_types': [0], 'CS_colors': [8]}

    def body(d):
        r = [[I(10, d['Part_UID'])], [S(40, d['Part_Name'])]]
        for i in range(n):
            r.append(Is(10, [el(d[k], i) for k in ('CS_sys_labels', 'CS_types', 'CS_colors')]))
            r.append([S(40, d['CS_names'][i])])
            m = d['CS_matrices'][i]
            for j in range(4):
                r.append([D(25, 16, el(m, 3 * j + c)) for c in range(3)])
        return r
    return Case(2420, 'n=%d' % n, req, opt, de, body, n=n)


# --------------------------------------------------------- 2429 and 2467
ACTIVE = ('active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
          'active_dof_set_no_for_group', 'active_temperature_set_no_for_group', 'active_contact_set_no_for_group')
GCOLS = {2429: ('entity_type_code', 'entity_tag'),
         2467: ('entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id')}


def cgroups(typ, counts, flat=False, omit_active=False):
    cols = GCOLS[typ]

    def group(g, n):
        e = {'group_number': atom('int', 'group_number', g), 'group_name': atom('str', 'group_name', g, ml=40)}
        if not omit_active:
            for k in ACTIVE:
                e[k] = atom('int', k, g)
        for c in cols:
            e[c] = Arr([atom('int', c, g, i) for i in range(n)], None, 'i8')
        return e
    if flat:
        (n,) = counts
        g0 = group(0, n)
        req = {k: (lambda k=k: group(0, n)[k]) for k in g0}
    else:
        req = {'groups': lambda: [group(g, n) for g, n in enumerate(counts)]}

    def groups(d):
        return [d] if flat else d['groups']

    def body(d):
        r = []
        for g, n in zip(groups(d), counts):
            r.append(Is(10, [g['group_number']] + [g.get(k, 0) for k in ACTIVE] + [n]))
            r.append([S(40, g['group_name'])])
            r += chunks(Is(10, [el(g[c], i) for i in range(n) for c in cols]), 8)
        return r

    def expect(d):
        out = []
        for g, n in zip(groups(d), counts):
            g = {k: v for k, v in g.items() if k != 'type'}
            for k in ACTIVE:
                g.setdefault(k, 0)
            g['number_of_entities_in_group'] = n
            out.append(g)
        return {'groups': out}
    return Case(typ, ('flat ' if flat else '') + 'counts=' + ','.join(map(str, counts)), req, {}, {}, body, expect)


# ------------------------------------------------------------------ 55
def c55(at, n, cplx=False, six=False, realmodal=False):
    req = {'analysis_type': at, 'data_ch': lambda: i_('data_ch'), 'spec_data_type': lambda: i_('spec_data_type'),
           'load_case': lambda: i_('load_case'), 'node_nums': lambda: ints('node_nums', n)}
    rs = ['r%d' % i for i in range(1, 7 if six else 4)]
    req.update({r: (lambda r=r: (cpxs if cplx else flts)(r, n)) for r in rs})
    opt = {'id%d' % i: (lambda i=i: t_('id%d' % i, 80)) for i in range(1, 6)}
    opt['model_type'] = lambda: i_('model_type')
    de = {'id%d' % i: 'NONE' for i in range(1, 6)}
    de['model_type'] = 1
    num = 'freq_step_n' if at == 5 else 'mode_n'
    req[num] = lambda: i_(num)
    if at == 2:
        req['freq'] = lambda: f_('freq')
        for k in ('modal_m', 'modal_damp_vis', 'modal_damp_his'):
            opt[k] = (lambda k=k: f_(k))
            de[k] = 0
        second, h2 = 4, lambda d: Es(13, 5, [d[k] for k in ('freq', 'modal_m', 'modal_damp_vis', 'modal_damp_his')])
    elif at == 5:
        req['freq'] = lambda: f_('freq')
        second, h2 = 1, lambda d: Es(13, 5, [d['freq']])
    else:
        req['eig'] = lambda: atom('complex', 'eig')
        for k in ('modal_a', 'modal_b'):
            opt[k] = (lambda k=k: f_(k)) if realmodal else (lambda k=k: atom('complex', k))
            de[k] = 0j
        second, h2 = 6, lambda d: Es(13, 5, [g(d[k]) for k in ('eig', 'modal_a', 'modal_b') for g in (re_, im_)])
    dt, npn = (5 if cplx else 2), (6 if six else 3)

    def body(d):
        r = [[S(80, d['id%d' % i])] for i in range(1, 6)]
        r.append(Is(10, [d['model_type'], at, d['data_ch'], d['spec_data_type'], dt, npn]))
        r.append(Is(10, [2, second, d['load_case'], d[num]]))
        r.append(h2(d))
        for i in range(n):
            r.append([I(10, el(d['node_nums'], i))])
            vs = []
            for k in rs:
                v = el(d[k], i)
                vs += [re_(v), im_(v)] if cplx else [v]
            r.append(Es(13, 5, vs))
        return r

    def expect(d):
        d['data_type'], d['n_data_per_node'] = dt, npn
        return d
    return Case(55, 'analysis %d %s%s n=%d' % (at, 'complex' if cplx else 'real', ' 6' if six else '', n), req, opt, de, body,
                expect, n=n)


# ------------------------------------------------------------------ 58
S58 = {'units_description': '', 'id1': 'NONE', 'id2': 'NONE', 'id3': 'NONE', 'id4': 'NONE', 'id5': 'NONE', 'func_id': 0,
       'ver_num': 0, 'binary': 0, 'load_case_id': 0, 'rsp_ent_name': 'NONE', 'ref_ent_name': 'NONE',
       'abscissa_axis_lab': 'NONE', 'abscissa_axis_units_lab': 'NONE', 'abscissa_len_unit_exp': 0,
       'abscissa_force_unit_exp': 0, 'abscissa_temp_unit_exp': 0, 'ordinate_len_unit_exp': 0,
       'ordinate_force_unit_exp': 0, 'ordinate_temp_unit_exp': 0, 'ordinate_axis_lab': 'NONE',
       'ordinate_axis_units_lab': 'NONE', 'orddenom_len_unit_exp': 0, 'orddenom_force_unit_exp': 0,
       'orddenom_temp_unit_exp': 0, 'orddenom_axis_lab': 'NONE', 'orddenom_axis_units_lab': 'NONE',
       'z_axis_len_unit_exp': 0, 'z_axis_force_unit_exp': 0, 'z_axis_temp_unit_exp': 0, 'z_axis_axis_lab': 'NONE',
       'z_axis_axis_units_lab': 'NONE', 'z_axis_value': 0, 'abscissa_spec_data_type': 0, 'ordinate_spec_data_type': 0,
       'orddenom_spec_data_type': 0, 'z_axis_spec_data_type': 0}
FUNCS = (0, 1, 2, 3, 4, 6, 9)


def c58(n, cplx, even, double, binary, func=1, bo='little', force=True, hint=None, min_opt=False):
    """force: force_double; hint: ord_data_type given by the caller (None: not given)"""
    odt = {(0, 0): 2, (0, 1): 4, (1, 0): 5, (1, 1): 6}[int(cplx), int(double)]
    req = {'func_type': func, 'rsp_node': lambda: i_('rsp_node'), 'rsp_dir': lambda: i_('rsp_dir'),
           'ref_node': lambda: i_('ref_node'), 'ref_dir': lambda: i_('ref_dir'), 'x': lambda: flts('x', n),
           'data': lambda: (cpxs if cplx else flts)('data', n)}
    opt, de = {}, {}
    for k, v in S58.items():
        if k in ('units_description',):
            continue
        de[k] = v
        if k == 'binary':
            continue
        if isinstance(v, str):
            ml = 80 if k.startswith('id') else (10 if k.endswith('ent_name') else 20)
            opt[k] = lambda k=k, ml=ml: t_(k, ml)
        elif k == 'z_axis_value':
            opt[k] = lambda: f_('z_axis_value')
        else:
            opt[k] = lambda k=k: i_(k)
    opt['binary'] = int(binary)
    opt['abscissa_spacing'] = int(even)
    de['abscissa_spacing'] = 0
    if min_opt:
        opt = {'binary': int(binary), 'abscissa_spacing': int(even)}
    if hint is not None:
        req['ord_data_type'] = hint

    def xmin(d):
        return el(d['x'], 0)

    def xinc(d):
        if n < 2:
            return 0.0
        return arith('-', el(d['x'], 1), el(d['x'], 0))

    def nbytes():
        return n * ((2 if cplx else 1) + (0 if even else 1)) * (8 if double else 4)

    def head(d, b):
        if not binary:
            return [I(6, 58)]
        return [I(6, 58), S(1, 'b'), I(6, 1 if b == 'little' else 2), I(6, 2), I(12, 11), I(12, nbytes()), I(6, 0), I(6, 0),
                I(12, 0), I(12, 0)]

    def stream(d):
        vs = []
        for i in range(n):
            if not even:
                vs.append(el(d['x'], i))
            v = el(d['data'], i)
            vs += [re_(v), im_(v)] if cplx else [v]
        return vs

    def axis(d, a, lab):
        return [I(10, d[a + '_spec_data_type'])] + Is(5, [d[a + '_%s_unit_exp' % u] for u in ('len', 'force', 'temp')]) + \
            [X(1), S(20, d[a + '_axis_lab'] if a != 'z_axis' else d['z_axis_axis_lab']), X(1),
             S(20, d[a + '_axis_units_lab'] if a != 'z_axis' else d['z_axis_axis_units_lab'])]

    def body(d):
        r = [[S(80, d['id%d' % i])] for i in range(1, 6)]
        r.append([I(5, func), I(10, d['func_id']), I(5, d['ver_num']), I(10, d['load_case_id']),
                  X(1), S(10, d['rsp_ent_name']), I(10, d['rsp_node']), I(4, d['rsp_dir']),
                  X(1), S(10, d['ref_ent_name']), I(10, d['ref_node']), I(4, d['ref_dir'])])
        r.append(Is(10, [odt, n, int(even)]) + Es(13, 5, [xmin(d) if even else 0, xinc(d) if even else 0, d['z_axis_value']]))
        for a in ('abscissa', 'ordinate', 'orddenom', 'z_axis'):
            r.append(axis(d, a, None))
        if not binary:
            vs = stream(d)
            if not double:
                r += chunks(Es(13, 5, vs), 6)
            elif even:
                r += chunks(Es(20, 12, vs), 4)
            elif not cplx:
                r += chunks([E(20, 12, v) if i % 2 else E(13, 5, v) for i, v in enumerate(vs)], 4)
            else:
                r += chunks([E(20, 12, v) if i % 3 else E(13, 5, v) for i, v in enumerate(vs)], 3)
        return r

    def expect(d):
        d['ord_data_type'], d['num_pts'], d['abscissa_spacing'] = odt, n, int(even)
        d['binary'] = int(binary)
        d['abscissa_min'] = xmin(d) if even else 0
        d['abscissa_inc'] = xinc(d) if even else 0
        if even:
            inc = xinc(d)
            d['x'] = [xmin(d) if i == 0 else arith('+', xmin(d), arith('*', inc, i) if isinstance(inc, Sym) else inc * i)
                      for i in range(n)]
        if binary:
            d['byte_ordering'] = 1 if bo == 'little' else 2
            d['n_bytes'] = nbytes()
        return d
    lab = '%s %s %s%s%s n=%d' % ('complex' if cplx else 'real', 'even' if even else 'uneven', 'double' if double else 'single',
                                 ' binary' if binary else '', ' func=%d' % func if func != 1 else '', n)
    c = Case(58, lab, req, opt, de, body, expect, n=n, force_double=force, typeline=head,
             binary=stream if binary else None, fmt='d' if double else 'f',
             derived=('ord_data_type', 'abscissa_min', 'n_bytes', 'data'))
    c.meta = dict(cplx=cplx, even=even, double=double, odt=odt, nbytes=nbytes(), bo=bo)
    return c


# ---------------------------------------------------------------- 2414
H2414 = ('model_type', 'analysis_type', 'data_characteristic', 'result_type', 'data_type',
         'number_of_data_values_for_the_data_component')
F2414 = (('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set', 'mode_number',
          'time_step_number', 'frequency_number'), ('creation_option', 'number_retained'),
         ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping'),
         ('real_part_eigenvalue', 'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass',
          'imaginary_part_of_modal_A_or_modal_mass', 'real_part_of_modal_B_or_modal_mass',
          'imaginary_part_of_modal_B_or_modal_mass'))


def _h2414(at, loc, ndv=None, dt=None):
    req = {'analysis_dataset_label': lambda: i_('analysis_dataset_label'),
           'analysis_dataset_name': lambda: t_('analysis_dataset_name', 40), 'dataset_location': loc}
    req.update({'id%d' % i: (lambda i=i: t_('id%d' % i, 80)) for i in range(1, 6)})
    for k in H2414:
        req[k] = (lambda k=k: i_(k))
    req['analysis_type'] = at
    if ndv is not None:
        req[H2414[-1]] = ndv
    if dt is not None:
        req['data_type'] = dt

    def head(d):
        r = [[I(10, d['analysis_dataset_label'])], [S(40, d['analysis_dataset_name'])], [I(10, loc)]]
        r += [[S(80, d['id%d' % i])] for i in range(1, 6)]
        r.append(Is(10, [d[k] for k in H2414]))
        return r
    return req, head


def c2414f(n, ndv, dt=5):
    """frequency response"""
    req, head = _h2414(5, 1, ndv, dt)
    for k in F2414[0] + F2414[1]:
        req[k] = (lambda k=k: i_(k))
    for k in F2414[2] + F2414[3]:
        req[k] = (lambda k=k: f_(k))
    req['node_nums'] = lambda: ints('node_nums', n)
    for k in 'xyz'[:ndv]:
        req[k] = (lambda k=k: cpxs(k, n))

    def body(d):
        r = head(d)
        r += [Is(10, [d[k] for k in F2414[0]]), Is(10, [d[k] for k in F2414[1]]),
              Es(13, 5, [d[k] for k in F2414[2]]), Es(13, 5, [d[k] for k in F2414[3]])]
        for i in range(n):
            r.append([I(10, el(d['node_nums'], i))])
            r.append(Es(13, 5, [g(el(d[k], i)) for k in 'xyz'[:ndv] for g in (re_, im_)]))
        return r
    return Case(2414, 'analysis 5 values=%d type=%d n=%d' % (ndv, dt, n), req, {}, {}, body, n=n)


def c2414r(n, ndv, dt):
    """frequency response with real data"""
    c = c2414f(n, ndv, dt)
    req = dict(c.req)
    for k in 'xyz'[:ndv]:
        req[k] = (lambda k=k: flts(k, n))
    _, head = _h2414(5, 1, ndv, dt)

    def body(d):
        r = head(d)
        r += [Is(10, [d[k] for k in F2414[0]]), Is(10, [d[k] for k in F2414[1]]),
              Es(13, 5, [d[k] for k in F2414[2]]), Es(13, 5, [d[k] for k in F2414[3]])]
        for i in range(n):
            r.append([I(10, el(d['node_nums'], i))])
            r.append(Es(13, 5, [el(d[k], i) for k in 'xyz'[:ndv]]))
        return r
    return Case(2414, 'analysis 5 real values=%d type=%d n=%d' % (ndv, dt, n), req, {}, {}, body, n=n)


def c2414g(loc, at, n, shape):
    """location 1: shape = values per node; 2: values per element (list); 3: list of (iexp, nodes, values)"""
    req, head = _h2414(at, loc)
    opt = {}
    for r_ in (10, 11):
        for f in range(1, 9):
            k = 'record%d_field%d' % (r_, f)
            opt[k] = (lambda k=k: i_(k))
    for r_ in (12, 13):
        for f in range(1, 7):
            k = 'record%d_field%d' % (r_, f)
            opt[k] = (lambda k=k: f_(k))
    de = {k: 0 for k in opt}

    def vals(name, *idx_n):
        *idx, m = idx_n
        return Arr([atom('float', name, *idx, j) for j in range(m)], None, 'f8')
    if loc == 1:
        req['node_nums'] = lambda: ints('node_nums', n)
        req['data_at_node'] = lambda: [vals('data_at_node', i, shape[i]) for i in range(n)]
    elif loc == 2:
        req['element_nums'] = lambda: ints('element_nums', n)
        req['NDVAL'] = lambda: list(shape)
        req['data_at_element'] = lambda: [vals('data_at_element', i, shape[i]) for i in range(n)]
    else:
        req['element_nums'] = lambda: ints('element_nums', n)
        req['IEXP'] = lambda: Arr([s[0] for s in shape], None, 'i8')
        req['number_of_nodes'] = lambda: Arr([s[1] for s in shape], None, 'i8')
        req['number_of_values_per_node'] = lambda: Arr([s[2] for s in shape], None, 'i8')
        req['data_at_nodes_on_element'] = lambda: [
            [vals('data_at_nodes_on_element', i, l, s[2]) for l in range(s[1] if s[0] == 1 else 1)] for i, s in enumerate(shape)]

    def body(d):
        r = head(d)
        for rec, m in ((10, 8), (11, 8)):
            r.append(Is(10, [d['record%d_field%d' % (rec, f)] for f in range(1, m + 1)]))
        for rec, m in ((12, 6), (13, 6)):
            r.append(Es(13, 5, [d['record%d_field%d' % (rec, f)] for f in range(1, m + 1)]))
        for i in range(n):
            if loc == 1:
                r.append([I(10, el(d['node_nums'], i))])
                r += chunks(Es(13, 5, d['data_at_node'][i].elems()), 6)
            elif loc == 2:
                r.append([I(10, el(d['element_nums'], i)), I(10, shape[i])])
                r += chunks(Es(13, 5, d['data_at_element'][i].elems()), 6)
            else:
                r.append([I(10, el(d['element_nums'], i))] + Is(10, shape[i]))
                for l in d['data_at_nodes_on_element'][i]:
                    r += chunks(Es(13, 5, l.elems()), 6)
        return r
    return Case(2414, 'location %d analysis %d n=%d %s' % (loc, at, n, shape), req, opt, de, body, n=n)


# ------------------------------------------------------------------ sets
TYPES = (15, 18, 55, 58, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467)


def cases(typ, extra=(), deep=False):
    """the shapes analysed for a type.  extra: further sizes"""
    def sizes(p, lo=1):
        s = set(range(lo, 2 * p + 2)) | {x for x in extra if x >= lo}
        return sorted(s)
    if typ == 15:
        return [c15(n) for n in sizes(1, 0)]
    if typ == 18:
        return [c18(n) for n in sizes(1, 0)]
    if typ == 82:
        return [c82(n) for n in sizes(8, 0)]
    if typ == 151:
        return [c151()]
    if typ == 164:
        return [c164()]
    if typ == 1858:
        return [c1858()]
    if typ == 2400:
        return [c2400()]
    if typ == 2411:
        return [c2411(n) for n in sizes(1, 0)]
    if typ == 2412:
        out = [c2412([(fe, [m])]) for fe in (11, 44, 112) for m in sizes(8, 1)] if deep else \
            [c2412([(fe, [m])]) for fe, ms in ((11, (2, 3, 8, 9)), (112, sizes(8, 1))) for m in ms]
        out += [c2412([(fe, [2, 3])]) for fe in BEAMS]
        out += [c2412([(41, [3, 3]), (44, [4]), (11, [2]), (94, [4, 4])]), c2412([(44, [4, 4, 4])]),
                c2412([(41, [3])]), c2412([(24, [3]), (115, [8, 8]), (116, [20]), (21, [2])]), c2412([])]
        return out
    if typ == 2420:
        return [c2420(n) for n in sizes(1, 0)]
    if typ in (2429, 2467):
        p = 4 if typ == 2429 else 2
        out = [cgroups(typ, (n,)) for n in sizes(p, 0)]
        out += [cgroups(typ, ()), cgroups(typ, (p, 0, p + 1)), cgroups(typ, (1, 2 * p, 1)), cgroups(typ, (p + 1, p))]
        if typ == 2429:
            out += [cgroups(typ, (n,), flat=True) for n in (1, p, p + 1)]
        return out
    if typ == 55:
        out = []
        for at in (2, 5, 3, 7):
            for n in sizes(1, 0):
                out.append(c55(at, n))
            for n in (1, 2):
                out.append(c55(at, n, cplx=True))
                out.append(c55(at, n, six=True))
                if at in (3, 7):
                    out.append(c55(at, n, realmodal=True))
                    out.append(c55(at, n, cplx=True, realmodal=True))
        return out
    if typ == 58:
        out = []
        for cplx in (0, 1):
            for even in (0, 1):
                for double in (1, 0):
                    p = 6 if not double else 4
                    per = {True: 1, False: 1}[even == 1]
                    hi = 2 * p + 1
                    ns = sorted(set(range(1, hi + 1)) | {x for x in extra if x >= 1})
                    for n in ns:
                        out.append(c58(n, cplx, even, double, 0, force=bool(double)))
        for f in FUNCS:
            out.append(c58(3, 1, 1, 1, 0, func=f))
        return out
    if typ == 2414:
        out = []
        for ndv in (1, 2, 3):
            for n in sizes(1, 0):
                out.append(c2414f(n, ndv))
        out.append(c2414f(2, 3, 6))
        for at in (0, 1, 2, 3, 4, 6, 7, 9):
            out.append(c2414g(1, at, 1, [3]))
        for m in range(1, 14):
            if m < 7:
                out.append(c2414g(1, 1, 2, [m, m]))
            out.append(c2414g(2, 1, 2, [m, m]))
            out.append(c2414g(3, 1, 2, [(1, 2, m), (2, 3, m)]))
        out += [c2414g(loc, 1, 0, []) for loc in (1, 2, 3)]
        out.append(c2414g(1, 2, 3, [6, 3, 1]))
        out.append(c2414g(2, 4, 3, [1, 6, 3]))
        out.append(c2414g(3, 4, 3, [(1, 4, 6), (2, 8, 3), (1, 1, 6)]))
        out.append(c2414g(2, 4, 3, [12, 7, 1]))
        out.append(c2414g(3, 4, 3, [(1, 4, 12), (2, 8, 7), (1, 1, 9)]))
        return out
    raise KeyError(typ)


def cases_binary(deep=False, extra=()):
    out = []
    for cplx in (0, 1):
        for even in (0, 1):
            for double in (1, 0):
                for n in sorted({1, 2, 3, 4, 5} | {x for x in extra if 1 <= x}):
                    out.append(c58(n, cplx, even, double, 1, force=bool(double)))
    return out


# ----------------------------------------------------------- texts with a shape
# contents that a field of text may have and that code may take for something else
WORDS = ('two words', 'a  b', '7', '%s {0} %d', 'e+0 D-5', "it's \"x\", y;z", '-1', '#', '\\n', 'NONE none', 'word', '0')


def worded(c, k=0, texts=WORDS):
    """the case with a given text in place of every unknown one, k: which text comes first"""
    import copy
    c = copy.copy(c)
    count = [0]

    def conv(v):
        if isinstance(v, Sym) and v.kind == 'str':
            t = texts[(k + count[0]) % len(texts)]
            count[0] += 1
            while v.ml is not None and len(t) > v.ml:
                t = t[:v.ml].strip()
            return t
        if isinstance(v, list):
            return [conv(x) for x in v]
        if isinstance(v, dict):
            return {a: conv(b) for a, b in v.items()}
        return v

    def wrap(src):
        return {a: (lambda m=m, i=i: (count.__setitem__(0, i), conv(m() if callable(m) else m))[1])
                for i, (a, m) in enumerate(src.items())}
    c.req, c.opt = wrap(c.req), wrap(c.opt)
    c.label = (c.label + ' ' if c.label else '') + 'texts %d' % k
    return c


def repeated(c):
    """the case with equal values: every entry of a list is its first one, every item of a list of dictionaries like the first"""
    import copy
    c = copy.copy(c)

    def flat(v):
        return all(isinstance(x, (Sym, int, float, str)) for x in v)

    def like(a, b):
        """b with the values of a where both have the same form"""
        if isinstance(a, Sym) and isinstance(b, Sym) and a.kind == b.kind:
            return a
        if isinstance(a, dict) and isinstance(b, dict):
            return {k: like(a[k], x) if k in a else x for k, x in b.items()}
        if isinstance(a, list) and isinstance(b, list) and a:
            return [like(a[min(i, len(a) - 1)], x) for i, x in enumerate(b)]
        if isinstance(a, Arr) and isinstance(b, Arr) and a.size() and len(a.shape) == len(b.shape) == 1:
            e = a.elems()
            return Arr([e[min(i, len(e) - 1)] for i in range(b.size())], b.shape, b.dt)
        return b

    def conv(v):
        if isinstance(v, list) and v:
            v = [conv(x) for x in v]
            return [v[0]] * len(v) if flat(v) and all(isinstance(x, Sym) for x in v) else [v[0]] + [like(v[0], x) for x in v[1:]]
        if isinstance(v, dict):
            return {a: conv(b) for a, b in v.items()}
        if isinstance(v, Arr) and v.size() and all(isinstance(x, Sym) for x in v.elems()):
            e = v.elems()
            return Arr([e[0]] * len(e), v.shape, v.dt)
        return v
    keep = ('x',) if c.typ == 58 else ()

    def wrap(src):
        return {a: m if a in keep else (lambda m=m: conv(m() if callable(m) else m)) for a, m in src.items()}
    c.req, c.opt = wrap(c.req), wrap(c.opt)
    c.label = (c.label + ' ' if c.label else '') + 'equal values'
    return c


def has_text(c):
    def t(v):
        return isinstance(v, Sym) and v.kind == 'str' or isinstance(v, list) and any(map(t, v)) or \
            isinstance(v, dict) and any(map(t, v.values()))
    return any(map(t, c.make().values()))
