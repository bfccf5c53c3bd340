"""C16: fusing respects width, exclusions and seed."""
import math

from apps import *  # noqa: F403
from harness import Sub, check, expect_raises, skip, st
from twin import twin
from tnco.utils.tn import contract, fuse


@st.composite
def fuse_cases(draw, **kw):
    c = draw(array_nets(kinds=('none',), sparse=False,
                        dims=draw(st.sampled_from([(2,), (2, 3, 5), (1, 2, 9),
                                                   (2, 1000)])),
                        max_total_log2=None, **kw))
    xs = sorted({x for t in c['ts'] for x in t}, key=repr)
    # output indices: those of the network, or any others
    n_on = Counter(x for t in c['ts'] for x in t)
    how = draw(st.sampled_from(['net', 'net', 'any', 'auto']))
    if how == 'any' and xs:
        c = dict(c, out=tuple(draw(st.lists(st.sampled_from(xs), unique=True))))
    elif how == 'auto':
        if any(k > 2 for k in n_on.values()):
            how = 'net'
        else:
            c = dict(c, out=tuple(x for x in xs if n_on[x] == 1))
    widest = max([width(t, c['dims']) for t in c['ts']] + [0])
    return dict(c, auto=how == 'auto',
                max_width=draw(st.sampled_from(
                    [0, 1, 2, 3, 4, 6, math.log2(3), widest, widest * .7,
                     widest + 1, 1000])),
                exclude=tuple(draw(st.lists(st.sampled_from(xs), max_size=2,
                                            unique=True))) if xs and draw(
                                                st.booleans()) else (),
                seed=draw(st.integers(0, 1 << 32)),
                as_int=draw(st.booleans()))


def go(c, **kw):
    dims = dict(c['dims'])
    if c['as_int'] and len(set(dims.values())) == 1:
        dims = next(iter(dims.values()))
    return fuse([list(t) for t in c['ts']], dims, c['max_width'],
                None if c['auto'] else list(c['out']),
                exclude_inds=list(c['exclude']), seed=c['seed'], **kw)


def run(c):
    path, fused = go(c, return_fused_inds=True)
    ts = c['ts']
    steps, groups = walk(path, len(ts))
    n_on = Counter(x for t in ts for x in t)
    keep = tuple(set(c['out']) | {x for x, k in n_on.items() if k == 1})

    def inds(s):
        return frozenset(ts[min(s)]) if len(s) == 1 else surviving(ts, keep, s)

    ex = frozenset(c['exclude'])
    check(len(fused) == len(path), 'fused indices')
    for (a, b), t in zip(steps, fused):
        check(inds(a) & inds(b), 'the tensors share no index')
        w = width(inds(a | b), c['dims'])
        check(w <= c['max_width'] + 1e-9, f'tensor of width {w}, limit',
              c['max_width'])
        check(not (inds(a) | inds(b)) & ex, 'an excluded index was touched')
        check(len(set(t)) == len(t) and frozenset(t) == inds(a | b),
              'fused indices', t, inds(a | b))
    # the library's own contraction agrees
    if len(ts):
        ys, out = contract(path, ts, None if c['auto'] else c['out'],
                           dims=dict(c['dims']))
        check([frozenset(y) for y in ys] == [inds(s) for s in groups],
              'contract() gives', ys)
    # room for everything
    total = width({x for t in ts for x in t}, c['dims'])
    if c['max_width'] >= total and not ex:
        check(len(groups) == len(components(ts)), 'not everything is fused')
    check(go(c) == path, 'another path for the same seed')
    return dict(nontrivial=len(path) > 1,
                tags=['excluded' if ex else 'nothing excluded',
                      'stopped early' if len(groups) > len(components(ts))
                      else 'all fused',
                      'hyper' if any(k > 2 for k in n_on.values()) else
                      'plain'])


def picture(c):
    return repr(go(c))


def run_processes(c):
    check(picture(c) == twin('checks.c16', 'picture', c),
          'another path in another process (other order of sets)')
    return dict(nontrivial=len(c['ts']) > 2)


def run_refuse(c):
    ts = [list(t) for t in c['ts']]
    n_on = Counter(x for t in ts for x in t)

    def refuse(why, *a, types=ValueError, **kw):
        expect_raises(lambda: fuse(*a, **kw), types, why)

    refuse('unknown output', ts, c['dims'], 4, ['nope'])
    refuse('unknown excluded', ts, c['dims'], 4, c['out'],
           exclude_inds=['nope'])
    for x in list(n_on)[:2]:
        refuse('missing dimension', ts,
               {k: v for k, v in c['dims'].items() if k != x}, 4, c['out'])
    if any(k > 2 for k in n_on.values()):
        refuse('hyper-indices, no outputs', ts, c['dims'], 4)
    return dict(nontrivial=bool(n_on))


R = 'more than one fusion'
SUBS = [
    Sub('fuse', fuse_cases(), run, 6000, 600000, R, 3),
    Sub('larger', fuse_cases(max_t=30), run, 800, 40000, R, 1),
    Sub('processes', fuse_cases(namings=('str', 'tuple', 'mixed'), max_t=12),
        run_processes, 2000, 60000, 'more than two tensors', 1),
    Sub('refuse', fuse_cases(), run_refuse, 400, 8000, 'there are indices',
        .3),
]
