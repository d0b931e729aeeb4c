"""Which proof tasks decide which property, and which search replays a failure."""
from itertools import product

Q, E, TL, TR = '"', '\\^', ' \t_', ' \t_'


def split_cfgs(tier, modes=None):
    """valid combinations of the dialect's options"""
    out = []
    full = tier == 'thorough'
    for q, e, l, r in product((Q, ''), (E, ''), (TL, ''), (TR, '')):
        for ml in (False, True):
            if ml and not (q or e):
                continue
            for mode in ('bool', 'string', 'throw'):
                if modes and mode not in modes:
                    continue
                if not full and mode != 'bool' and not (q and e and l and r):
                    # error reporting differs only in the handlers, reached in the richest dialect
                    continue
                out.append(dict(quote=q, escape=e, tl=l, tr=r, multiline=ml, mode=mode))
    # richest first: they take longest
    out.sort(key=lambda c: -(len(c['quote']) * 8 + len(c['escape']) * 4 + len(c['tl']) + len(c['tr'])))
    # some quick ones before that: they tell early when something is wrong
    return out[-6:] + out[:-6]


def split_tasks(tier, modes=None):
    return [('split', 'split', c, 240 if tier == 'quick' else 1500) for c in split_cfgs(tier, modes)]


ANY = lambda n: True


def cls(*subs):
    return lambda n: any(s in n for s in subs)


def not_cls(*subs):
    return lambda n: not any(s in n for s in subs)


SPLIT_SPEC = ('number of fields', 'fields lie', 'length of every field', 'every character', 'consumes the whole line',
              'returns its field list', 'no invariant')
SPLIT_ERR = ('throws', 'valid on', 'malformed', 'error message', 'empty delimiter', 'unterminated quote exactly',
             'consumes the whole line')


class Prop:
    def __init__(self, pid, tasks, match=ANY, search=None, need=(), note='', bounded=None):
        self.pid, self.tasks, self.match, self.search, self.need, self.note = pid, tasks, match, search, need, note
        self.bounded = bounded


def split_search(tier):
    from .search import split_search
    return split_search


PROPS = {}


def prop(pid, tasks, **kw):
    PROPS[pid] = Prop(pid, tasks, **kw)


prop('P01', lambda tier: split_tasks(tier), match=cls(*SPLIT_SPEC), search=('split', ('fields', 'field outside', 'field list', 'valid line reported', 'memory')), need=('fields',))
prop('P02', lambda tier: split_tasks(tier), match=cls(*SPLIT_ERR), search=('split', ('malformed', 'valid line reported', 'error message', 'unterminated quote')), need=('fields',))
prop('P03', lambda tier: split_tasks(tier), match=not_cls('splitter.split '), search=('split', ('memory', 'terminate', 'field outside')), need=('fields',))


# ---- reading rows ---------------------------------------------------------
def rn_tasks(tier, ie=(False, True), sources=('file', 'buffer'), firsts=(False, True)):
    modes = ('string',) if tier == 'quick' else ('string', 'bool', 'throw')
    return [('parser', 'read_next', dict(source=s, ignore_empty=i, first=f, mode=m), 400)
            for m in modes for s in sources for i in ie for f in firsts]


def glb_tasks(tier):
    return [('reader', 'get_line_buffer', dict(null=n), 200) for n in (False, True)]


def parse_tasks(tier, pairs=False):
    P = lambda **k: ('multiline', 'parse', k, 500 if tier == 'quick' else 2000)
    if pairs:
        return [P(source=s, helper=True, escape='', limit=1, mode='throw') for s in ('file', 'buffer')] + \
               [P(source=s, helper=False, escape='', limit=2, mode='string') for s in ('file', 'buffer')]
    q = [P(source='buffer', helper=False, limit=1, mode='throw'),
         P(source='file', helper=False, quote='', limit=2, mode='throw'),
         P(source='file', helper=False, escape='', limit=2, mode='string', tl=' ', tr=' '),
         P(source='buffer', helper=True, quote='', mode='string'),
         P(source='buffer', helper=True, escape='', limit=1, mode='bool'),
         P(source='file', helper=True, escape='', mode='bool'),
         P(source='buffer', helper=False, multiline=False, mode='string'),
         P(source='file', helper=True, multiline=False, mode='throw')]
    if tier == 'thorough':
        q += [P(source='file', helper=True, limit=2, mode='string'), P(source='buffer', helper=True),
              P(source='buffer', helper=True, escape='\\^', limit=3, mode='bool'),
              P(source='file', helper=False, limit=0, mode='throw')]
    return q


def get_tasks(tier, pairs=False):
    G = lambda **k: ('row', 'get_next', k, 200)
    if pairs:
        return [G(source=s, mode=m, state=t) for s in ('file', 'buffer') for m in ('string', 'throw') for t in ('row', 'end')]
    out = [G(source=s, mode=m, state=t, first=f)
           for s, m, t, f in (('buffer', 'string', 'row', False), ('file', 'string', 'row', True), ('buffer', 'throw', 'row', False),
                              ('file', 'throw', 'row', False), ('buffer', 'bool', 'row', True), ('buffer', 'string', 'end', False),
                              ('buffer', 'throw', 'end', False), ('file', 'bool', 'end', False))]
    out += [G(source='buffer', mode='string', types='int, double'), G(source='file', mode='throw', multiline=True)]
    if tier == 'thorough':
        out += [G(source=s, mode=m, state=t, first=f, multiline=ml) for s in ('file', 'buffer') for m in ('string', 'bool', 'throw')
                for t in ('row', 'end') for f in (False, True) for ml in (False, True)]
    return out


def ign_tasks(tier):
    return [('row', 'ignore_next', dict(source=s, mode=m, first=f), 200) for s, m, f in (
        ('buffer', 'string', False), ('file', 'bool', True), ('buffer', 'throw', False))]


def obs_tasks(tier):
    return [('row', 'observers', dict(source=s, mode=m), 200) for s, m in (
        ('buffer', 'string'), ('file', 'bool'), ('buffer', 'throw'))]


def ctor_tasks(tier):
    C = lambda **k: ('row', 'construct', k, 200)
    return [C(source='buffer', mode='string'), C(source='file', mode='string'), C(source='file', mode='throw', header=False),
            C(source='buffer', mode='throw', header=False), C(source='buffer', mode='bool', null=True),
            C(source='buffer', mode='throw', null=True)]


READ = ('reads the next line', 'loses no row', 'false at the end', 'moves behind', 'get_line_buffer', 'row is the text', 'skips no line',
        'reads a line', 'row is in the buffer', 'throws', 'allocation failure', 'keeps a valid', 'position behind', 'starts reading at the start',
        'reads the file', 'reads the buffer', 'reads the whole buffer', 'opens the', 'loses no row')

prop('P06', lambda tier: rn_tasks(tier) + glb_tasks(tier) + ctor_tasks(tier), match=lambda n: cls(*READ)(n) or '@' in n,
     search=('parser', ('value', 'eof', 'validity', 'header text', 'memory', 'terminate', 'bad_alloc')))
prop('P07', lambda tier: rn_tasks(tier) + glb_tasks(tier), match=lambda n: cls('size without', 'line ending', 'row is')(n) or '@' in n,
     search=('parser', ('value', 'validity', 'message', 'header text', 'memory')))
prop('P08', lambda tier: parse_tasks(tier), match=lambda n: 'position is' not in n and 'counts' not in n,
     search=('parser', ('value', 'validity', 'message', 'eof', 'memory', 'terminate')))
prop('P09', lambda tier: rn_tasks(tier) + parse_tasks(tier) + get_tasks(tier) + obs_tasks(tier) + ign_tasks(tier),
     match=cls('counts', 'position', 'line of the row', 'line: ', 'reports: row error', 'reports: conversion error'),
     search=('parser', ('line()', 'position()', 'message')))
prop('P10', lambda tier: rn_tasks(tier) + parse_tasks(tier, True) + get_tasks(tier, True) + glb_tasks(tier) +
     [('row', 'construct', dict(source=s, mode='string'), 200) for s in ('file', 'buffer')],
     search=('parser', ('source', 'memory', 'bad_alloc')))
prop('P16', lambda tier: get_tasks(tier) + ign_tasks(tier) + obs_tasks(tier) + rn_tasks(tier, sources=('buffer',)),
     match=lambda n: cls('get_next ', 'ignore_next ', 'valid: ', 'eof: ', 'msg: ', 'clears the', 'converts ', 'row is parsed', 'row which was',
                         'fields of the row', 'row has been read', '@')(n) and 'line of the row' not in n,
     search=('parser', ('value', 'validity', 'message', 'eof', 'ignore_next', 'end of file', 'memory', 'bad_alloc')))
prop('P22', lambda tier: rn_tasks(tier), match=cls('skips', 'not empty', 'loses no row', 'reads the next line', 'row is the text', 'moves behind'),
     search=('parser', ('value', 'validity', 'eof', 'line()', 'number of columns')))


# ---- conversions ------------------------------------------------------------
INTS = ('int', 'unsigned', 'short', 'unsigned short', 'long', 'unsigned long', 'long long', 'unsigned long long', 'ss::int8', 'ss::uint8')


def ex(T, **k):
    return ('conv', 'extract', dict(T=T, **k), 120)


def ex_tasks(tier):
    return [ex(T) for T in INTS + ('bool', 'char', 'std::string', 'std::string_view')]


def fp_tasks(tier):
    return [ex(T, fallback=f) for T in ('double', 'float') for f in (False, True)]


def optvar_tasks(tier):
    out = [ex('std::optional<%s>' % t, engaged=e) for t in ('int', 'std::string', 'double', 'bool', 'char', 'ss::uint8') for e in (False, True)
           if tier == 'thorough' or e or t in ('int', 'std::string')]
    out += [ex('std::variant<%s>' % t) for t in ('int, double', 'int, char, std::string', 'bool, int', 'double, char', 'std::string, int', 'ss::uint8, short, char')]
    if tier == 'thorough':
        out += [ex('std::optional<%s>' % t, engaged=e) for t in INTS + ('float',) for e in (False, True)]
        out += [ex('std::variant<%s>' % t) for t in ('char, int', 'float, std::string', 'unsigned, long, double, bool', 'short, unsigned short, int, unsigned')]
        out += [ex('std::optional<double>', engaged=True, fallback=True), ex('std::variant<int, double, char>', fallback=True)]
    return out


def res_tasks(tier):
    R = lambda R, T, *a: ('conv', 'restriction', dict(R=R, T=T, args=tuple(a)), 120)
    out = [R(r, 'int', *a) for r, a in (('ax', (5,)), ('ax', (1, 2, -3)), ('nx', (5,)), ('nx', (-1, 0, 7, 12)), ('gt', (3,)), ('gt', (-3,)), ('gte', (3,)), ('gte', (-7,)),
                                        ('lt', (3,)), ('lt', (-3,)), ('lte', (3,)), ('lte', (-7,)), ('ir', (-3, 12)), ('ir', (5, 5)), ('ir', (5, 1)),
                                        ('oor', (-3, 12)), ('oor', (5, 5)), ('oor', (5, 1)))]
    for T in ('long', 'unsigned', 'short', 'double', 'unsigned long', 'char') + (('float', 'unsigned short', 'long long') if tier == 'thorough' else ()):
        a, b, c = ("'b'".strip("'"), 'd', 'z') if T == 'char' else (3, 12, 40)
        out += [R('ax', T, a, b, c), R('nx', T, a, b, c), R('gt', T, b), R('gte', T, b), R('lt', T, b), R('lte', T, b), R('ir', T, a, b), R('oor', T, a, b)]
    out += [R('gt', 'long', 2147483648), R('lte', 'long', -2147483649), R('ir', 'double', -3, 3), R('oor', 'double', -3, 3), R('ne', 'std::string')]
    M = lambda R, t: ('conv', 'message', dict(R=R, text=t), 60)
    out += [M('ne<std::string>', 'empty field'), M('ax<int, 1>', 'value excluded'), M('nx<char, 97>', 'value excluded')]
    return out


def conv_tasks(tier):
    C = lambda t, **k: ('conv', 'convert', dict(types=t, **k), 120)
    out = [C('int', mode='string'), C('int', mode='throw', entry='elems'), C('int', mode='bool', entry='line'),
           C('std::string', mode='string', entry='elems'), C('double', mode='bool', mapped=True), C('std::optional<int>', mode='string'),
           C('int, std::string', mode='string', mapped=True), C('std::string, double', mode='throw', mapped=True, entry='elems'),
           C('void, int', mode='string'), C('std::string, void, int', mode='bool', mapped=True), C('int, void, void, char', mode='throw'),
           C('int, double, char', mode='string', entry='line'), C('bool, unsigned, long', mode='throw', entry='line'),
           C('int, char', mode='string', wrap='tuple'), C('int, double', mode='string', wrap='tied'), C('int, double', mode='throw', wrap='tied', entry='elems'),
           C('int, double', mode='bool', wrap='object'), C('int, double', mode='string', wrap='object', mapped=True, entry='line'),
           C('ss::ax<int, 5>', mode='string'), C('ss::ir<int, 1, 9>, ss::ne<std::string>', mode='string'), C('ss::gt<int, 3>, int', mode='throw', mapped=True),
           C("ss::nx<char, 'a', 'b'>, void, ss::oor<int, 1, 9>", mode='bool'), C('ss::ne<std::string>', mode='throw', entry='line'),
           C('int, int, int', mode='string', mapped=True, entry='line')]
    if tier == 'thorough':
        out += [C(t, mode=m, mapped=p, entry=e) for m in ('bool', 'string', 'throw') for p in (False, True) for e in ('cached', 'elems', 'line')
                for t in ('int', 'std::string', 'int, double', 'std::string, int, char', 'void, std::string, void', 'ss::lt<int, 3>, ss::lte<double, 2>',
                          'std::optional<double>, bool', 'int, int, int, int')]
        out += [C('int, double', mode=m, wrap=wr, mapped=p, entry=e) for m in ('bool', 'string', 'throw') for p in (False, True)
                for e in ('cached', 'elems', 'line') for wr in ('tuple', 'tied', 'object')]
    return out


prop('P11', conv_tasks, search=('conv', ('row error', 'number of columns', 'mapping', 'conversion', 'restriction', 'value', 'validity', 'message', 'memory')))
prop('P12', ex_tasks, search=('conv', ('extract integer', 'extract bool', 'extract char', 'extract string', 'memory')))
prop('P13', optvar_tasks, search=('conv', ('extract optional', 'extract variant', 'memory')))
prop('P14', lambda tier: res_tasks(tier) + [t for t in conv_tasks(tier) if 'ss::' in t[2]['types']],
     match=lambda n: cls('restriction', 'extract<')(n) or '@' in n or 'convert returns' in n or 'convert is valid' in n or 'throws' in n,
     search=('conv', ('restriction value', 'restriction message', 'validity restriction', 'message restriction', 'value', 'memory')))
prop('P15', fp_tasks, search=('conv', ('extract float', 'memory')))


# ---- substitute conversions and iteration -------------------------------------
def try_tasks(tier):
    T = lambda op, **k: ('tries', 'attempt', dict(op=op, **k), 120)
    out = [T('try'), T('try', fun='whole', mode='bool'), T('try', fun='whole_const'), T('try', fun='whole_void'), T('try', fun='none'),
           T('try', fun='none_void'), T('try', types='int, double', fun='parts'), T('try', types='int, std::string', fun='parts_void'),
           T('try', types='int, std::string', fun='whole', call='try_object', obj=True), T('try', types='std::string', fun='whole', mode='bool'),
           T('else', call='or_else'), T('else', call='or_else', fun='whole'), T('else', call='or_else', fun='none', mode='bool'),
           T('else', call='or_else', types='int, std::string', utypes='std::string, char', fun='parts', mode='bool'),
           T('else', call='or_else', types='int', utypes='std::string, char', fun='whole_const'),
           T('else', call='or_object', types='int', utypes='std::string, double', uobj=True, fun='whole'),
           T('else', call='or_object', types='int', utypes='std::string, double', uobj=True, fun='none_void', mode='bool'),
           T('error', fun='error'), T('error', fun='error_text', types='std::string', utypes='int, double'), T('error', fun='error', mode='bool'),
           T('values', types='std::string', utypes='int, double')]
    if tier == 'thorough':
        fs = ('', 'whole', 'whole_const', 'whole_void', 'none', 'none_void')
        out += [T('try', fun=f, mode=m, types=t) for f in fs for m in ('string', 'bool') for t in ('int', 'std::string', 'double, int')]
        out += [T('else', call='or_else', fun=f, mode=m, types=t, utypes=u) for f in fs for m in ('string', 'bool')
                for t, u in (('int', 'std::string'), ('int, char', 'double, std::string'))]
        out += [T('else', call='or_object', fun=f, mode=m, types='int, char', utypes='double, std::string', uobj=True) for f in fs for m in ('string', 'bool')]
    return out


def iter_tasks(tier):
    T = lambda op, **k: ('iterate', 'iteration', dict(op=op, **k), 120)
    out = [T('begin'), T('begin', types='int, double', mode='throw'), T('begin', types='std::string, int', obj=True, mode='bool'),
           T('pre'), T('pre', types='std::string, int', mode='throw'), T('pre', types='int, std::string', obj=True),
           T('post'), T('post', types='double, int', mode='bool'), T('post', types='double, std::string', mode='throw', obj=True),
           T('compare'), T('compare end'), T('compare', types='int, std::string', obj=True), T('compare end', types='int, std::string', obj=True)]
    if tier == 'thorough':
        out += [T(o, mode=m, types=t, obj=j) for o in ('begin', 'pre', 'post', 'compare', 'compare end') for m in ('string', 'bool', 'throw')
                for t, j in (('int', False), ('std::string, char', False), ('double, std::string', True))]
    return out


prop('P19', try_tasks, search=('parser', ('try_next', 'try_object', 'or_else', 'or_object', 'on_error', 'memory')))
prop('P21', iter_tasks, search=('parser', ('iteration', 'memory')))


# ---- header and fields by name -------------------------------------------------
def header_tasks(tier):
    U = lambda op, **k: ('header', 'use', dict(op=op, **k), 200)
    out = [U('header'), U('header', mode='bool', state='empty', source='file'), U('header', mode='throw', multiline=True), U('raw', mode='throw'),
           U('exists', state='empty'), U('exists', mode='bool', state='cleared', source='file'), U('exists', mode='throw', state='split'), U('exists'), U('exists', mode='throw', state='empty', multiline=True),
           U('use', args=0), U('use', args=1, state='empty'), U('use', args=2, mode='bool', source='file'), U('use', args=2, mode='throw', state='cleared'),
           U('use', args=3), U('use', args=1, mode='throw', multiline=True, state='empty')]
    out += [t for t in ctor_tasks(tier) if t[2].get('header', True) and not t[2].get('null')]
    if tier == 'thorough':
        out += [U(o, mode=m, state=s, multiline=ml, source=c) for o in ('header', 'raw', 'exists') for m in ('bool', 'string', 'throw')
                for s in ('split', 'empty', 'cleared') for ml in (False, True) for c in ('buffer', 'file')]
        out += [U('use', args=a, mode=m, state=s, source=c) for a in (0, 1, 2, 3) for m in ('bool', 'string', 'throw')
                for s in ('split', 'empty', 'cleared') for c in ('buffer', 'file')]
    return out


prop('P17', header_tasks, match=lambda n: cls('header', 'use_fields ', 'field_exists ')(n) or '@' in n, search=('parser', ('header', 'memory')))


# ---- error modes ------------------------------------------------------------------
def mode_tasks(tier):
    out = []
    full = tier == 'thorough'
    for m in ('bool', 'string', 'throw'):
        out += [('split', 'split', dict(quote=q, escape=e, tl=l, tr=r, multiline=ml, mode=m), 400)
                for q, e, l, r, ml in (((Q, E, '', '', False), (Q, '', '', '', True), ('', E, TL, TR, False)) if not full else
                                       [c for c in product((Q, ''), (E, ''), (TL, ''), (TR, ''), (False, True)) if not c[4] or c[0] or c[1]])]
        out += [('multiline', 'parse', dict(source='buffer', helper=False, escape='', limit=2, mode=m), 400),
                ('multiline', 'parse', dict(source='buffer', helper=False, quote='', mode=m), 400)]
        out += [('row', 'get_next', dict(source='buffer', mode=m, state=t, types=y), 200) for t, y in (('row', 'int'), ('end', 'int'), ('row', 'int, double'))]
        out += [('row', 'ignore_next', dict(source='buffer', mode=m), 200), ('row', 'observers', dict(source='buffer', mode=m), 200),
                ('parser', 'read_next', dict(source='buffer', ignore_empty=True, first=False, mode=m), 400)]
        out += [('row', 'construct', dict(source=s, mode=m, header=h, null=n), 200)
                for s, h, n in (('file', True, False), ('buffer', False, False), ('buffer', True, True))]
        out += [('conv', 'convert', dict(types=t, mode=m, **k), 120) for t, k in (
            ('int', dict(entry='line')), ('std::string, int', dict(mapped=True)), ('int, double', dict(wrap='object', entry='line')),
            ('ss::ir<int, 1, 9>, void, ss::ne<std::string>', dict(entry='elems')))]
        out += [('header', 'use', dict(op=o, mode=m, state=s, **k), 200) for o, s, k in (
            ('header', 'split', {}), ('exists', 'empty', {}), ('use', 'empty', dict(args=1)), ('use', 'split', dict(args=2)), ('use', 'split', dict(args=0)))]
        out += [('iterate', 'iteration', dict(op=o, mode=m), 120) for o in ('begin', 'pre')]
        if full:
            out += [t for t in conv_tasks(tier) if t[2].get('mode') == m and t not in out]
            out += [t for t in get_tasks(tier) if t[2].get('mode') == m and t not in out]
    return out


def modes(p, res, specs):
    """P18: failures in one error mode while another mode of the same function is clean"""
    texts = cls('reports', 'message', 'keeps the error', 'error')
    by = {}
    for r, s in zip(res, specs):
        k = (s[0], s[1], tuple(sorted((a, str(b)) for a, b in s[2].items() if a != 'mode')))
        by.setdefault(k, {})[s[2].get('mode')] = (r, s)
    out = []
    for v in by.values():
        if len(v) < 3 or any(r.get('unsupported') for r, s in v.values()):
            continue
        bad = {m: [f for f in r['failed']] for m, (r, s) in v.items()}
        # without a message there is nothing to compare it with
        loud = {m: bad[m] for m in ('string', 'throw')}
        if bool(loud['string']) != bool(loud['throw']):
            pick = [m for m in loud if loud[m]]
        else:
            rest = {m: [f for f in bad[m] if not texts(f['obligation'])] for m in bad}
            pick = [m for m in rest if rest[m]]
            if len(pick) in (0, 3):
                continue
            bad = rest
        out += [(v[m][0], v[m][1], f) for m in pick for f in bad[m]]
    return out


prop('P18', mode_tasks, search=('mode', ('mode', 'memory')))
PROPS['P18'].select = modes


# ---- moving and releasing ---------------------------------------------------------
def move_tasks(tier):
    M = lambda op, **k: ('moves', 'move', dict(op=op, **k), 120)
    out = [M('move'), M('move', mode='bool', source='buffer'), M('move', mode='throw', multiline=True), M('move', first=True),
           M('assign'), M('assign', mode='bool', source='buffer', target='file'), M('assign', mode='throw', source='file', target='buffer'),
           M('assign', first=True), M('assign', target_first=True, multiline=True), M('assign', source='buffer', target='buffer', first=True),
           M('again'), M('again', mode='throw', source='buffer', multiline=True), M('again', mode='bool', first=True, third='buffer'),
           M('destroy'), M('destroy', mode='throw', first=True), M('destroy', mode='bool', source='buffer')]
    if tier == 'thorough':
        out += [M(o, mode=m, source=s, target=t, first=f, target_first=g, multiline=ml) for o in ('move', 'assign') for m in ('bool', 'string', 'throw')
                for s in ('file', 'buffer') for t in ('file', 'buffer') for f in (False, True) for g in (False, True) for ml in (False, True)
                if o == 'assign' or (t == 'file' and not g)]
        out += [M('again', mode=m, source=s, third=t, first=f) for m in ('bool', 'string', 'throw') for s in ('file', 'buffer')
                for t in ('file', 'buffer') for f in (False, True)]
    return out


prop('P20', lambda tier: move_tasks(tier) + ctor_tasks(tier) + ign_tasks(tier) + (get_tasks(tier) if tier == 'thorough' else [('row', 'get_next', dict(source='file', mode='bool', multiline=True), 200), ('row', 'get_next', dict(source='buffer', mode='throw', first=True), 200)]),
     match=cls('move ', 'moved from', 'destruction', 'closes the file', 'keeps the file open', 'buffer is lost', 'size of the buffers', 'buffers are distinct',
               'no buffer, no size', 'free', 'fclose', 'starts without buffers'),
     search=('parser', ('move', 'resource', 'memory')))


def twins(p, res, specs):
    """P10: failures of one source whose twin of the other source is clean"""
    out = []
    by = {}
    for r, s in zip(res, specs):
        k = (s[0], s[1], tuple(sorted((a, str(b)) for a, b in s[2].items() if a != 'source')))
        by.setdefault(k, []).append((r, s))
    for k, v in by.items():
        bad = [x for x in v if x[0]['failed']]
        if len(bad) == 1 and not any(x[0].get('unsupported') for x in v):
            r, s = bad[0]
            out += [(r, s, f) for f in r['failed']]
        elif bad:
            # what errno was before counts for neither
            out += [(r, s, f) for r, s in bad for f in r['failed'] if 'on allocation failure only' in f['obligation']]
    return out


PROPS['P10'].select = twins


# ---- the single header ------------------------------------------------------------
def single_tasks(tier):
    S = lambda **k: ('split', 'split', k, 400)
    full = tier == 'thorough'
    out = []
    if full:
        out += split_tasks(tier) + parse_tasks(tier) + rn_tasks(tier) + mode_tasks(tier)
    else:
        out += [S(quote=Q, escape=E, tl=TL, tr=TR, multiline=False, mode='string'), S(quote=Q, escape='', tl='', tr='', multiline=True, mode='bool'),
                S(quote='', escape=E, tl='', tr=TR, multiline=False, mode='throw'), S(quote='', escape='', tl=TL, tr='', multiline=False, mode='bool')]
        out += [parse_tasks(tier)[k] for k in (0, 2, 3, 4, 6)]
        out += rn_tasks(tier, firsts=(False,))
    for f in (glb_tasks, get_tasks, ign_tasks, obs_tasks, ctor_tasks, res_tasks, ex_tasks, optvar_tasks, conv_tasks, header_tasks, try_tasks,
              iter_tasks, move_tasks):
        out += [t for t in f(tier) if t not in out]
    # there is one back end for floating point numbers
    out += [ex(T, fallback=True) for T in ('double', 'float')]
    return [t for t in out if full or (t[0], t[1]) != ('row', 'get_next') or t[2].get('types') or t[2].get('state') == 'row']


prop('P23', single_tasks, search=('single', ('',)))
PROPS['P23'].single = True
