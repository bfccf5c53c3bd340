"""C01: random contraction paths are valid and complete."""
from oracles import *  # noqa: F403
from harness import Sub, check, st
from twin import twin
from tnco.utils.tn import get_random_contraction_path


@st.composite
def cases(draw):
    net = draw(networks(min_t=1, max_t=12, max_extra=10, dims=(2,)))
    ts = list(net['ts'])
    if draw(st.integers(0, 4)) == 0:
        # scalars anywhere
        for _ in range(draw(st.integers(1, 3))):
            ts.insert(draw(st.integers(0, len(ts))), ())
    return dict(ts=tuple(ts),
                seed=draw(st.integers(0, 2**31)),
                as_list=draw(st.booleans()))


def inputs(c):
    return ([list(xs) for xs in c['ts']] if c['as_list'] else iter(c['ts']))


def sharing(a, b, ts):
    ia = {x for t in a for x in ts[t]}
    ib = {x for t in b for x in ts[t]}
    return bool(ia & ib)


def info(c):
    cc = components(c['ts'])
    big = [x for x in cc if len(x) > 2]
    return dict(nontrivial=bool(big),
                tags=[f'components={min(len(cc), 4)}',
                      f'largest={min(9, max(map(len, cc)))}'])


def run_separate(c):
    ts, n = c['ts'], len(c['ts'])
    paths = get_random_contraction_path(inputs(c), merge_paths=False,
                                        seed=c['seed'])
    want = {frozenset(x) for x in components(ts) if len(x) > 1}
    got = []
    for p in paths:
        steps, left = walk(p, n)
        for a, b in steps:
            check(sharing(a, b, ts), 'no shared index in step', a, b)
        done = [s for s in left if len(s) > 1]
        check(len(done) <= 1, 'one component gives several tensors', done)
        got += done
    check(len(got) == len(set(got)) and set(got) == want,
          'components not fully contracted', got, want)
    again = get_random_contraction_path(inputs(c), merge_paths=False,
                                        seed=c['seed'])
    check(paths == again, 'not reproducible')
    return info(c)


def run_merged(c):
    ts, n = c['ts'], len(c['ts'])
    comp = components(ts)
    # without autocompletion: every component down to one tensor
    p0 = get_random_contraction_path(inputs(c), autocomplete=False,
                                     seed=c['seed'])
    steps, left = walk(p0, n)
    for a, b in steps:
        check(sharing(a, b, ts), 'no shared index in step', a, b)
    check(sorted(map(sorted, left)) == comp,
          'remaining tensors are not the components', left, comp)
    # with it: everything down to one tensor, the same inside components
    p1 = get_random_contraction_path(inputs(c), seed=c['seed'])
    steps1, left1 = walk(p1, n)
    check(len(left1) == 1 and len(p1) == n - 1, 'incomplete path', p1)
    check(list(map(tuple, p1[:len(p0)])) == list(map(tuple, p0)),
          'the completed path does not extend the plain one', p0, p1)
    within = {frozenset(s) for s in steps1
              if any(s[0] | s[1] <= frozenset(x) for x in comp)}
    check(within == {frozenset(s) for s in steps},
          'autocompletion changes a component')
    blocks = [frozenset(x) for x in comp]
    for a, b in steps1:
        if not any(a | b <= x for x in blocks):
            check(all((x <= a or not x & a) and (x <= b or not x & b)
                      for x in blocks),
                  'components joined before they are contracted')
    check(p1 == get_random_contraction_path(inputs(c), seed=c['seed']),
          'not reproducible')
    return info(c)


def run_variety(c):
    """All pairs that may start a contraction do get chosen by some seed."""
    ts, n = c['ts'], len(c['ts'])
    seen = set()
    for s in range(40):
        p = get_random_contraction_path(inputs(c), autocomplete=False,
                                        seed=c['seed'] + s)
        walk(p, n)
        seen.add(tuple(map(tuple, p)))
    pairs = sum(sharing([i], [j], ts) for i in range(n) for j in range(i))
    if pairs > 2 and len(components(ts)) < n - 2:
        check(len(seen) > 1, 'forty seeds give one path')
    return info(c)


def run_deprecated(c):
    """Passing the deprecated output indices changes nothing."""
    n = len(c['ts'])
    a = get_random_contraction_path(inputs(c), seed=c['seed'])
    b = get_random_contraction_path(
        inputs(c), [x for xs in c['ts'] for x in xs][:2], seed=c['seed'])
    walk(b, n)
    check(a == b)
    return info(c)


def picture(c):
    return repr([get_random_contraction_path(inputs(c), seed=c['seed'] + i,
                                             merge_paths=bool(i))
                 for i in range(2)])


def run_twin(c):
    # Names whose hash depends on the process
    c = dict(c, ts=tuple(tuple('i%s' % (x,) for x in xs) for xs in c['ts']))
    check(picture(c) == twin('checks.c01', 'picture', c),
          'another process gives another path')
    return info(c)


R = 'some component has at least three tensors'
SUBS = [
    Sub('separate', cases(), run_separate, 2400, 200000, R, 2),
    Sub('merged', cases(), run_merged, 2400, 200000, R, 2),
    Sub('variety', cases(), run_variety, 160, 10000, R, .7),
    Sub('processes', cases(), run_twin, 160, 5000, R, 1, shards=4),
    Sub('deprecated', cases(), run_deprecated, 160, 4000, R, .3),
]
