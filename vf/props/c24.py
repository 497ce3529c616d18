"""C24: reading a curve never changes what it answers."""
from hypothesis import strategies as st
from ..core import facet, short
from .. import gen, edits, graph
from ..build import iv_tuple
from .c06 import observe, agree, describe

RULE = ('non-trivial: at least four reads of derived curves of which one reaches back before an earlier one or repeats it, on a source of at least four points; '
        'distinct = distinct (facet, case)')
CASES = {'quick': 1500, 'thorough': 40000}
ASSUMPTIONS = ['the answer of a freshly built curve to its first read is the oracle',
               'stepping through extremas curves is specified by sampling only',
               'accumulating curves over extensions, subsets or combinations with gaps are not built']

KINDS = ['y', 'y', 'y', 'y', 'domain', 'samples', 'part', 'next', 'previous', 'neighbour', 'slope', 'ends', 'walk', 'range', 'full range', 'full range', 'step', 'regression', 'repr']


def st_case():
    read = st.tuples(st.integers(0, 7), st.sampled_from(KINDS), gen.pos(12), gen.rel_interval(12)).map(list)
    return st.fixed_dictionaries({'g': graph.st_spec(4, 12), 'reads': st.lists(read, min_size=2, max_size=14),
                                  'again': st.lists(st.integers(0, 13), max_size=3),
                                  'pre': st.lists(graph.st_edit_op(invalid=False), max_size=2)})


@facet('read order', st_case)
def read_order(case, ctx):
    spec = case['g']
    states = [graph.initial(s) for s in spec['src']]
    n_src = len(states)
    for op in case['pre']:
        # any source data
        k = op['s'] % n_src
        _, new = graph.resolve_edit(spec['src'][k], states[k], op)
        if new is not None and new != edits.REJECT:
            states[k] = new
    live = graph.Graph(spec, states)
    n = len(live.curves)
    notified = []
    for i, c in enumerate(live.curves):
        c.add_observer(begin=make_end(notified, i), end=make_end(notified, i))
    xs = graph.grid_of(states, spec)
    reads = list(case['reads'])
    reads += [reads[k % len(reads)] for k in case['again']]
    seen = {}
    back = False
    for r in reads:
        i = n_src + r[0] % (n - n_src)
        f = live.facts[i]
        if r[1] == 'repr':
            # (text is not compared: it may contain addresses)
            text = ctx.sut(f'repr of curve {i} {describe(live, spec, i)}', repr, live.curves[i])
            ctx.check(isinstance(text, str) and text, 'repr of curve {} {} is {}', i, describe(live, spec, i), text)
            continue
        exp = observe(graph.Graph(spec, states, only=i).curves[i], f, r[1], xs, r[2], r[3])
        got = observe(live.curves[i], f, r[1], xs, r[2], r[3])
        ctx.check(agree(got, exp), '{} of curve {} {} at {} is {} after the reads before it, {} when read first (sources {})',
                  r[1], i, describe(live, spec, i), r[2:], short(got, 400), short(exp, 400), states)
        x = gen.resolve(xs, r[2])
        if i in seen and x <= seen[i]:
            back = True
        seen[i] = max(seen.get(i, x), x)
        ctx.label('read ' + r[1])
    for i in range(n):
        if live.facts[i].finite and live.facts[i].sample:
            # what the caller does with a returned list is none of the curve's business
            got = live.curves[i].sample_points()
            exp = [tuple(p) for p in got]
            got.reverse()
            got.append((0, 0))
            again = [tuple(p) for p in live.curves[i].sample_points()]
            ctx.check(agree(again, exp), 'sampling curve {} {} again after changing the returned list gives {}, before it was {}', i, describe(live, spec, i), short(again, 400), short(exp, 400))
    ctx.check(not notified, 'reading notified the subscribers of curves {}', notified)
    for i, s in enumerate(spec['src']):
        if s['kind'] == 'points':
            now = [tuple(p) for p in live.targets[i].sample_points()]
            ctx.check(now == states[i], 'reading altered source {}: {}', i, now)
    for k, _, _ in live.nodes:
        ctx.label('kind ' + k)
    ctx.nontrivial(len(reads) >= 4 and back and len(xs) >= 4)


def make_end(notified, i):
    def end(domain):
        notified.append((i, 'end'))
    return end


FACETS = [read_order]
