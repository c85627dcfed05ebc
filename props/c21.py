"""C21: Regex matches in the selected mode and no other."""
import re
import oblate
from oblate import fields, validate
from common import *

BOUNDS = ('strings of printable ASCII and newlines of up to 8 (thorough: 16) characters against the listed patterns, flags none, IGNORECASE, DOTALL or both, '
          'and runs of 70 and 300 (thorough: up to 1100) equal characters with up to 2 (thorough: 3) characters before or after, '
          'given as text or compiled; all three modes')
ASSUMPTIONS = ['strings outside ASCII, back references, lookarounds, anchors inside patterns and MULTILINE anchors are outside the modelled regular expressions (CPython semantics)']
PATTERNS = ('a', 'ab', 'a+b*', '[a-c]+', '(a|bc)d?', r'\d{2,3}', '^ab$', '^a', 'b$', '', '.', '.*x', r'\w+\s\d', '[^a]', 'a{2}', 'x?', '(ab)+', 'a.c', r'[A-Z]\d*', r'-?\d+',
            r'\Aab\Z', 'a|b|cc', '(?:ab|a)(?:bc|c)?', r'[\w.]+@[a-z]+', 'a*?b', r'\S+')
FLAGS = (0, re.I, re.S, re.I | re.S)


def kwargs(mode):
    return {'match': {}, 'fullmatch': dict(full_match=True), 'search': dict(search=True)}[mode]


def explicit(mode):
    return {'match': dict(full_match=False, search=False), 'fullmatch': dict(full_match=True, search=False), 'search': dict(full_match=False, search=True)}[mode]


def value(H, name='s'):
    return H.str(name, maxlen=H.bound(8, 16), ascii=True)


def modes(H):
    p = PATTERNS[H.choice('pattern', tuple(range(len(PATTERNS))))]
    fl = FLAGS[H.choice('flags', (0, 1, 2, 3) if H.thorough else (0, 1, 2))]
    mode = H.choice('mode', ('match', 'fullmatch', 'search'))
    how = H.choice('how', ('text', 'explicit', 'compiled'))
    if how == 'compiled':
        v = validate.Regex(re.compile(p, fl), **kwargs(mode))
    elif fl or how == 'explicit':
        v = validate.Regex(p, fl, **(explicit(mode) if how == 'explicit' else kwargs(mode)))
    else:
        v = validate.Regex(p, **kwargs(mode))
    s = value(H)
    ok, r = H.attempt(v, None, s, None)
    H.check(H.iff(ok, H.regex(p, fl, mode, s)), 'accepted exactly when the pattern matches in the selected mode')
    if not ok:
        H.check(isinstance(r, ValueError), 'rejection is a ValueError')
        H.check(H.text(r) == 'Value failed pattern validation', 'default message')
    H.cover(mode + (' accepted' if ok else ' rejected'))


def differ(H):
    """Three validators of the same pattern, one value: each keeps its own mode."""
    p = H.choice('pattern', ('ab', '[a-c]+', r'\d{2,3}', '(a|bc)d?', 'a.c'))
    vs = {m: validate.Regex(p, **kwargs(m)) for m in ('match', 'fullmatch', 'search')}
    s = value(H)
    got = {m: H.attempt(vs[m], None, s, None)[0] for m in H.choice('order', (('match', 'fullmatch', 'search'), ('search', 'fullmatch', 'match')))}
    for m in got:
        H.check(H.iff(got[m], H.regex(p, 0, m, s)), 'each validator uses its own mode')
    H.check(not got['fullmatch'] or got['match'], 'consistent')
    H.check(not got['match'] or got['search'], 'consistent')
    H.cover('/'.join(m for m in ('match', 'fullmatch', 'search') if got[m]))


def flags_differ(H):
    """Validators of one pattern with different flags, in any order, and their text in messages: each keeps its own."""
    p = H.choice('pattern', ('ab', '[a-c]+', 'a.c', r'[A-Z]\d*'))
    order = H.choice('order', ((0, 1, 2), (2, 1, 0), (1, 0, 0)))
    mode = H.choice('mode', ('match', 'fullmatch', 'search'))
    vs = [validate.Regex(p, FLAGS[i], fail_message='%d: {pattern}' % n, **kwargs(mode)) for n, i in enumerate(order)]
    s = value(H)
    for again in range(2):
        for n, i in enumerate(order):
            ok, r = H.attempt(vs[n], None, s, None)
            H.check(H.iff(ok, H.regex(p, FLAGS[i], mode, s)), 'each validator uses its own flags')
            if not ok:
                H.check(H.eq(H.text(r), '%d: %s' % (n, re.compile(p, FLAGS[i]))), 'and its own message')
            H.cover('accepted' if ok else 'rejected')


def messages(H):
    tmpl, ref = H.choice('template', (
        ('{value} is bad', lambda v: v + ' is bad'), ('no {pattern}', lambda v: 'no ' + str(re.compile('a+'))), ('plain', lambda v: 'plain'),
        ('{value}/{value}', lambda v: v + '/' + v), ('{{{value}}}', lambda v: '{' + v + '}'), ('<{pattern}> {value}', lambda v: '<' + str(re.compile('a+')) + '> ' + v)))
    mode = H.choice('mode', ('match', 'fullmatch', 'search'))
    v = validate.Regex(re.compile('a+') if H.flip('compiled') else 'a+', fail_message=tmpl, **kwargs(mode))
    s = value(H)
    where = H.choice('where', ('direct', 'field'))
    if where == 'direct':
        ok, r = H.attempt(v, None, s, None)
        if not ok:
            H.check(isinstance(r, ValueError), 'rejection is a ValueError')
            H.check(H.eq(H.text(r), ref(s)), 'the given message with value and pattern filled in')
    else:
        class S(oblate.Schema):
            f = fields.String(validators=[v])
        ok, r = H.attempt(S, {'f': s})
        if not ok:
            H.check(isinstance(r, oblate.ValidationError) and list(r.raw()) == ['f'] and len(r.raw()['f']) == 1, 'one error of the field')
            H.check(H.eq(r.raw()['f'][0], ref(s)), 'the given message with value and pattern filled in')
        else:
            H.check(r.f is s, 'stored')
    H.check(H.iff(ok, H.regex('a+', 0, mode, s)), 'decided by the pattern in the selected mode')
    H.cover('accepted' if ok else 'rejected')


LONG = ('a*b', '[a-c]+', r'\d+', 'b$', '.*x', 'ab', '(a|bc)+', r'a+\Z', '')


def longer(H):
    """Long strings: a long run of one character, then (or before) anything."""
    p = H.choice('pattern', LONG)
    mode = H.choice('mode', ('match', 'fullmatch', 'search'))
    n = H.choice('run', H.bound((70, 300), (70, 130, 300, 1100)))
    run = H.choice('char', ('a', '1', '.', '\n')) * n
    t = H.str('tail', maxlen=H.bound(2, 3), ascii=True)
    s = run + t if H.flip('first') else t + run
    ok, r = H.attempt(validate.Regex(p, **kwargs(mode)), None, s, None)
    H.check(H.iff(ok, H.regex(p, 0, mode, s)), 'accepted exactly when the pattern matches the whole text in the selected mode')
    H.cover(mode + (' accepted' if ok else ' rejected'))


def refused(H):
    p = H.choice('pattern', ('a', '', re.compile('a')))
    kw = {'fail_message': 'x'} if H.flip('msg') else {}
    ok, r = H.attempt(validate.Regex, p, full_match=True, search=True, **kw)
    H.check(not ok and isinstance(r, TypeError), 'both modes are refused with TypeError')
    H.cover('refused')


modes.covers = tuple(m + r for m in ('match', 'fullmatch', 'search') for r in (' accepted', ' rejected'))
longer.covers = modes.covers
differ.covers = ('', 'search', 'match/search', 'match/fullmatch/search')
flags_differ.covers = ('accepted', 'rejected')
messages.covers = ('accepted', 'rejected')
refused.covers = ('refused',)
SCENARIOS = dict(modes=modes, differ=differ, flags_differ=flags_differ, messages=messages, longer=longer, refused=refused)
