"""C27: subscriptions start, stop and filter exactly as asked."""
import functools
import gc
from hypothesis import strategies as st
from intervalpy import Interval
from ..core import facet
from ..build import iv_tuple

RULE = ('non-trivial: at least two changes, with a subscription ended or started between or during them; distinct = distinct (facet, case)')
CASES = {'quick': 2600, 'thorough': 60000}
ASSUMPTIONS = ['ranges of subscriptions are longer than a point (intervalpy takes a point at the open start of an interval to lie inside)',
               'a subscriber added by a callback hears the next phase (end) of the change in progress, one removed hears nothing more of it',
               'subscriptions not made to end with their owner are heard after it is gone, until subscriptions of some object are ended, when they may go as well',
               'callbacks do not change the curve which is announcing']

FORMS = ['none', 'one', 'varargs', 'method', 'method0', 'object', 'partial']
SCRIPTS = ['self', 'token', 'token', 'owner', 'add', 'add first', 'unknown', 'drop']


def st_sub():
    return st.fixed_dictionaries({
        'owner': st.one_of(st.none(), st.none(), st.integers(0, 3)), 'auto': st.booleans(),
        'domain': st.one_of(st.none(), st.none(), st.tuples(st.integers(-6, 30), st.integers(1, 12), st.booleans(), st.booleans()).map(list)),
        'tuple': st.booleans(),
        'begin': st.one_of(st.none(), st.sampled_from(FORMS)), 'end': st.one_of(st.none(), st.sampled_from(FORMS)),
        'first': st.booleans(),
        'script': st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(['begin', 'end']), st.sampled_from(SCRIPTS), st.integers(0, 9)).map(list))})


def st_case():
    op = st.one_of(
        st.tuples(st.just('sub'), st_sub()), st.tuples(st.just('sub'), st_sub()),
        st.tuples(st.just('unsub'), st.integers(0, 9)), st.tuples(st.just('unsub owner'), st.integers(0, 3)),
        st.tuples(st.just('drop'), st.integers(0, 3)), st.tuples(st.just('unknown'), st.sampled_from([0, -1, 10 ** 9, 'object', 'again'])),
        st.tuples(st.just('change'), st.integers(0, 30)), st.tuples(st.just('change'), st.integers(0, 30)),
        st.tuples(st.just('append'))).map(list)
    return st.fixed_dictionaries({'kind': st.sampled_from(['points', 'points', 'map', 'offset', 'const', 'line', 'sum', 'two', 'two']),
                                  'subs': st.lists(st_sub(), min_size=1, max_size=4), 'ops': st.lists(op, min_size=3, max_size=14)})


class Owner:
    pass


def meets(a, b):
    """Do two ranges (start, end, start_open, end_open) share a position?"""
    s, e = max(a[0], b[0]), min(a[1], b[1])
    if s > e:
        return False
    if s < e:
        return True
    return not any((r[0] == s and r[2]) or (r[1] == s and r[3]) for r in (a, b))


class World:
    """The real registry"""

    def __init__(self, curve, ctx):
        self.c = curve
        self.ctx = ctx
        self.log = []
        self.tokens = []
        self.owners = [Owner() for _ in range(4)]

    def callback(self, sid, phase, form, world_action):
        log = self.log

        def heard(*args):
            log.append((sid, phase, iv_tuple(args[0]) if args else None))
            world_action(sid, phase)
        if form is None:
            return None
        if form == 'none':
            return lambda: heard()
        if form == 'one':
            return lambda iv: heard(iv)
        if form == 'varargs':
            return lambda *a: heard(*a)
        if form == 'partial':
            return functools.partial(lambda f, iv: f(iv), heard)

        class Obj:
            def m(self, interval):
                heard(interval)

            def m0(self):
                heard()

            def __call__(self, interval):
                heard(interval)
        o = Obj()
        return o.m if form == 'method' else o.m0 if form == 'method0' else o

    def subscribe(self, sid, s, action):
        kw = {'begin': self.callback(sid, 'begin', s['begin'], action), 'end': self.callback(sid, 'end', s['end'], action)}
        if s['domain'] is not None:
            d = rng(s['domain'])
            kw['domain'] = (d[0], d[1]) if s['tuple'] and not d[2] and not d[3] else Interval(d[0], d[1], start_open=d[2], end_open=d[3])
        if s['first']:
            kw['prioritize'] = True
        args = []
        if s['owner'] is not None and self.owners[s['owner']] is not None:
            args = [self.owners[s['owner']]]
            if s['auto']:
                kw['autoremove'] = True
        t = self.ctx.sut('add_observer', self.c.add_observer, *args, **kw)
        self.tokens.append(t)
        return t


def rng(d):
    a, w, so, eo = d
    return (a, a + w, so and w > 0, eo and w > 0)


@facet('subscriptions', st_case)
def subscriptions(case, ctx):
    from curvepy import Points, Constant, Line
    kind = case['kind']
    if kind in ('points', 'map', 'offset', 'sum', 'two'):
        src = Points([(i, i) for i in range(6)])
        c = {'points': lambda: src, 'map': lambda: src.map(lambda y: y), 'offset': lambda: src.offset(2), 'sum': lambda: src + 1,
             # a change arrives in two parts
             'two': lambda: src.offset(6) + src}[kind]()
    else:
        src = c = Constant(0) if kind == 'const' else Line(const=0, slope=1)
    state = {'n': 0}

    def change(op):
        state['n'] += 1
        if kind == 'const':
            src.value = 1000 + state['n']
        elif kind == 'line':
            src.set(const=1000 + state['n'], slope=2)
        elif op[0] == 'append':
            src.append((src.domain.end + 1, state['n']))
        else:
            src.replace((op[1] % (int(src.domain.end) + 1), 1000 + state['n']))

    w = World(c, ctx)
    seen = []
    c.add_observer(begin=lambda iv: seen.append(('begin', iv_tuple(iv))), end=lambda iv: seen.append(('end', iv_tuple(iv))))

    # ---- the model: subscriptions in calling order, and who may still be called
    order = []              # sids
    subs = {}               # sid -> spec (alive ones only)
    specs = {}
    fired = set()
    all_sids = []

    def m_subscribe(sid, s, alive_owner):
        specs[sid] = dict(s, owner=s['owner'] if alive_owner else None)
        all_sids.append(sid)
        if s['begin'] is None and s['end'] is None:
            return
        subs[sid] = specs[sid]
        if s['first']:
            order.insert(0, sid)
        else:
            order.append(sid)

    def m_remove(sid):
        if sid in subs:
            del subs[sid]
            order.remove(sid)

    def m_remove_owner(o):
        for sid in list(order):
            if subs[sid]['owner'] == o:
                m_remove(sid)

    def can_drop(o):
        return w.owners[o] is not None and all(s['auto'] or s['script'] is None for s in subs.values() if s['owner'] == o)

    orphans = set()         # subscriptions which outlived their owner
    maybe = set()           # those which may have been cleaned up

    def m_drop(o):
        for sid in list(order):
            if subs[sid]['owner'] == o:
                if subs[sid]['auto']:
                    m_remove(sid)
                else:
                    orphans.add(sid)
                    ctx.label('outlived its owner')

    def m_purge():
        maybe.update(orphans)

    # ---- scripts, executed both by the real callbacks and by the model
    extra = {'begin': 'one', 'end': 'none', 'owner': None, 'auto': False, 'domain': None, 'tuple': False, 'first': False, 'script': None}
    tokens = {}
    plan = {}       # decisions of real callbacks, replayed by the model

    def target(sids_known, k):
        return sids_known[k % len(sids_known)] if sids_known else None

    real_fired = set()
    real_extra = {}

    def real_action(sid, phase):
        s = specs[sid]
        sc = s['script']
        if sc is None or sc[0] != phase or sid in real_fired:
            return
        real_fired.add(sid)
        if sc[1] == 'self':
            c.remove_observer(tokens[sid])
        elif sc[1] == 'token':
            t = target(known, sc[2])
            c.remove_observer(tokens[t])
        elif sc[1] == 'owner':
            o = w.owners[sc[2] % 4]
            if o is not None:
                c.remove_observer(o)
        elif sc[1] in ('add', 'add first'):
            nid = 'x%d' % sid
            e = dict(extra, first=sc[1] == 'add first')
            specs.setdefault(nid, e)
            tokens[nid] = w.subscribe(nid, e, real_action)
        elif sc[1] == 'unknown':
            c.remove_observer(-7)
            c.remove_observer(Owner())
        elif sc[1] == 'drop':
            pass

    def model_action(sid, phase):
        s = specs[sid]
        sc = s['script']
        if sc is None or sc[0] != phase or sid in fired:
            return
        fired.add(sid)
        if sc[1] == 'self':
            m_remove(sid)
        elif sc[1] == 'token':
            m_remove(target(known, sc[2]))
        elif sc[1] == 'owner':
            if w.owners[sc[2] % 4] is not None:
                m_remove_owner(sc[2] % 4)
                m_purge()
        elif sc[1] == 'unknown':
            m_purge()
        elif sc[1] in ('add', 'add first'):
            m_subscribe('x%d' % sid, dict(extra, first=sc[1] == 'add first'), False)

    known = []
    counter = [0]

    def subscribe(s):
        sid = counter[0]
        counter[0] += 1
        alive = s['owner'] is not None and w.owners[s['owner']] is not None
        m_subscribe(sid, s, alive)
        t = tokens[sid] = w.subscribe(sid, s, real_action)
        empty = s['begin'] is None and s['end'] is None
        ctx.check((t == 0) if empty else (t > 0 and list(tokens.values()).count(t) == 1), 'token {} of subscription {}; earlier tokens {}', t, s, tokens)
        known.append(sid)

    changes = 0
    between = False
    ended_or_started = False
    for op in [['sub', s] for s in case['subs']] + case['ops']:
        k = op[0]
        if k == 'sub':
            subscribe(op[1])
            between = between or changes > 0
        elif k == 'unsub':
            t = target(known, op[1])
            if t is None:
                continue
            ctx.sut('remove_observer', c.remove_observer, tokens[t])
            between = between or (t in subs and changes > 0)
            m_remove(t)
        elif k == 'unsub owner':
            if w.owners[op[1]] is None:
                continue
            ctx.sut('remove_observer', c.remove_observer, w.owners[op[1]])
            m_remove_owner(op[1])
            m_purge()
        elif k == 'drop':
            if not can_drop(op[1]):
                continue
            w.owners[op[1]] = None
            gc.collect(0)
            m_drop(op[1])
        elif k == 'unknown':
            u = op[1]
            if u == 'object':
                u = Owner()
                m_purge()
            elif u == 'again':
                gone = [s for s in known if s not in subs]
                if not gone:
                    continue
                u = tokens[gone[0]]
            ctx.sut('remove_observer', c.remove_observer, u)
        else:
            del seen[:]
            del w.log[:]
            was = set(subs)
            ctx.sut('change', change, op)
            ctx.check([e[0] for e in seen[-2:]] == ['begin', 'end'] and len(seen) in ((2, 3) if kind == 'two' else (2,)) and seen[0][0] == 'begin',
                      'a change was announced as {}', seen)
            iv = seen[-1][1]
            hull = (min(e[1][0] for e in seen), max(e[1][1] for e in seen))
            ctx.check(iv[:2] == hull if kind == 'two' else seen[0][1] == iv, 'a change was announced to begin and end over {}', seen)
            exp = []
            for phase, iv in seen:
                for sid in list(order):
                    if sid not in subs:
                        continue
                    s = subs[sid]
                    if s['domain'] is not None and not meets(iv, rng(s['domain'])):
                        continue
                    if s[phase] is None:
                        continue
                    exp.append((sid, phase, None if s[phase] in ('none', 'varargs', 'method0') else iv))
                    model_action(sid, phase)
            heard = [h for h in w.log if h[0] not in maybe]
            exp = [h for h in exp if h[0] not in maybe]
            ctx.check(heard == exp, 'change over {}: called {}, expected {}; subscriptions {}', iv, heard, exp, {i: specs[i] for i in was})
            ctx.check(not c.is_updating, 'the curve is updating after a change')
            changes += 1
            if set(subs) != was:
                between = True
                ctx.label('during')
    ctx.nontrivial(changes >= 2 and between)
    ctx.label(kind)


def st_shared():
    return st.fixed_dictionaries({
        'form': st.sampled_from(['none', 'one', 'method', 'object']), 'both': st.booleans(),
        'ops': st.lists(st.one_of(
            st.tuples(st.just('sub'), st.one_of(st.none(), st.none(), st.tuples(st.integers(-6, 9), st.integers(1, 6)).map(list)), st.integers(0, 2), st.booleans()),
            st.tuples(st.just('unsub'), st.integers(0, 9)), st.tuples(st.just('unsub owner'), st.integers(1, 2)),
            st.tuples(st.just('change'), st.integers(0, 5))).map(list), min_size=3, max_size=10)})


@facet('same callback', st_shared, weight=0.3)
def shared(case, ctx):
    """The same callback in several subscriptions: each of them counts"""
    from curvepy import Points
    c = Points([(i, i) for i in range(6)])
    log = []

    class Obj:
        def m(self, iv):
            log.append(1)

        def __call__(self):
            log.append(1)
    o = Obj()
    f = {'none': lambda: log.append(1), 'one': lambda iv: log.append(1), 'method': o.m, 'object': o}[case['form']]
    owners = [None, Owner(), Owner()]
    live, tokens, made, n = {}, [], 0, 0
    for op in case['ops']:
        if op[0] == 'sub':
            kw = {'begin': f, 'end': f} if case['both'] else {'end': f}
            if op[1]:
                kw['domain'] = (op[1][0], op[1][0] + op[1][1])
            t = ctx.sut('add_observer', c.add_observer, *([owners[op[2]]] if op[2] else []), prioritize=op[3], **kw)
            ctx.check(t not in tokens, 'two subscriptions of one callback share the token {}', t)
            tokens.append(t)
            live[t] = op
            made += 1
        elif op[0] == 'unsub' and tokens:
            t = tokens[op[1] % len(tokens)]
            ctx.sut('remove_observer', c.remove_observer, t)
            live.pop(t, None)
        elif op[0] == 'unsub owner':
            ctx.sut('remove_observer', c.remove_observer, owners[op[1]])
            live = {t: s for t, s in live.items() if s[2] != op[1]}
        elif op[0] == 'change':
            x = op[1]
            n += 1
            del log[:]
            ctx.sut('replace', c.replace, (x, 100 + n))
            iv = (max(x - 1, 0), min(x + 1, 5), x > 0, x < 5)
            exp = sum(s[1] is None or meets(iv, (s[1][0], s[1][0] + s[1][1], False, False)) for s in live.values()) * (2 if case['both'] else 1)
            ctx.check(len(log) == exp, 'a callback subscribed {} times was called {} times for a change over {}', list(live.values()), len(log), iv)
    ctx.nontrivial(n >= 1 and made >= 2)


FACETS = [subscriptions, shared]
