from harness import gen, standard

RULE = ('random model universes (all field kinds, namespaces, wrapping, inheritance, options), random instances with None and empty '
        'values; each serialized document compared as a tree with the one the reference serializer prescribes; distinct = '
        '(shape of the universe, options)')
CASES = {'quick': 900, 'thorough': 12000}
MIN = {'serializations compared': 500, 'elements written': 2000}
PROFILE = gen.Profile()


def case(ctx, rng, *_):
    prof = PROFILE if rng.random() < .6 else PROFILE.but(
        p_wrapped=rng.choice([.1, .5]), p_ns=rng.choice([0, 1]), p_optitem=rng.choice([0, .3]), fields=(1, 8), p_text=.4, p_dup=.2)
    standard.run(ctx, rng, prof, values=4, read=False, p_flags=.15, opts=gen.ValueOpts(p_none=.35, p_empty=rng.choice([0, .3])))
