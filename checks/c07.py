"""C07: finite-width optimizer costs are the true sliced costs."""
from harness import Sub, check, expect_raises, skip, st
from trees import *  # noqa: F403


def run(c):
    m = Model(c, c['path'])
    c = lift_width(c, m)
    opt = finite_optimizer(c, m)
    h = CostHistory(m, c, opt, True)
    h.observe()
    seen = {opt.slices}
    for rule, k in c['ops']:
        prob = make_rule(rule, c['cost_type'])
        for _ in range(k):
            opt.update(prob, update_slices=c['update_slices'])
            h.observe()
            seen.add(opt.slices)
    return dict(nontrivial=len(set(h.costs)) > 2 and bool(opt.slices),
                tags=[c['cost_type'],
                      'sparse' if c['sparse'] else 'dense',
                      'slices changed' if len(seen) > 1 else
                      'same slices' if opt.slices else 'no slices',
                      f'new slices {c["new_slices"]}'])


R = 'sliced, and more than two different costs were met'
SUBS = [
    Sub('history', finite_cases(), run, 3600, 300000, R, 3),
    Sub('larger', finite_cases(max_t=24), run, 400, 30000, R, 1),
]
