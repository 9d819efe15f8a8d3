from harness import gen, flow, standard
from harness.core import Skip

RULE = ('random universes (model level skip_empty, excluded fields, computed fields, wrapped fields, nested models), instances with '
        'None, empty and unset values, all eight combinations of the exclusion options for each; every document compared with the '
        'reference serializer; distinct = (shape, options)')
CASES = {'quick': 1500, 'thorough': 20000}
MIN = {'serializations compared': 4000, 'instances with conditionally excluded fields': 300}
PROFILE = gen.Profile(p_skip_empty=.3, p_exclude=.12, p_opt=.45, p_default=.35, p_computed=.3, p_nillable=.15, p_optitem=.15, models=(1, 4), p_noxml=.05,
                      p_wrapped=.3, p_mutual=.25)
# settings of models met again below models with other settings
MUTUAL = PROFILE.but(p_mutual=1, p_recursive=.3, p_skip_empty=.5, p_root=0, p_inherit=0, p_computed=.1, models=(2, 3), fields=(1, 4), types=dict(mod=6, prim=5, coll=2))
COMBOS = [dict(zip(('skip_empty', 'exclude_none', 'exclude_unset'), c)) for c in
          [(a, b, c) for a in (False, True) for b in (False, True) for c in (False, True)]]


def case(ctx, rng):
    r = rng.random()
    w = flow.World(ctx, rng, PROFILE if r < .5 else MUTUAL if r < .65 else
                   PROFILE.but(p_root=.4, models=(2, 4), types=dict(mod=4, coll=3, prim=3, dct=1, raw=1, tup=1, td=1)))
    try:
        for _ in range(2):
            inst = w.instance(gen.ValueOpts(p_none=.4, p_unset=.15 if .5 <= r < .65 else .45, p_empty=.3))
            ctx.count('instances with conditionally excluded fields', any(f.exclude_if for m in w.U.models.values() for f in m.fields))
            for fl in COMBOS:
                w.check_ser(inst, rng.choice(['unicode', 'tree']), **fl)
                ctx.cover(w.sig, sorted(k for k in fl if fl[k]))
        ctx.sample('%s\n%r' % (w.src, inst))
    finally:
        w.close()
