"""C07: interrupted analyses."""
import c05

TARGETS = ['drv_ls']
FAST = True
TECHNIQUE = 'fault injection into generated histories: the cancellation flag is raised before the n-th statement of an analysis (or before it starts) through a hook; differential oracle: the same history without interruption'
EXAMPLES = {'quick': 3000, 'thorough': 60000}
RULE = 'a case is non-trivial when at least one analysis was interrupted before its end'
ASSUMPTIONS = ['as the request manager does, only the analysis after opening or editing a document is interrupted, and a later edit of that document is analysed to completion'] + c05.ASSUMPTIONS


def gen(r, tier):
    case = c05.gen(r, tier)
    case['cancels'] = {}
    for j, e in enumerate(case['ev']):
        if e[0] in ('open', 'edit', 'tweak') and r.chance(60):
            case['cancels'][str(j)] = r.weighted([(1, 0), (8, 1)]) * r.int(1, r.pick([3, 10, 30]))
    return case


def run(case, env):
    return c05.run(case, env, cancels=case['cancels'] or {'x': 0})
