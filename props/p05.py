from harness import gen, standard

RULE = ('random universes where names come from tags, aliases, serialization and validation aliases, model tags, class and field '
        'names, in default value, annotation and split style; both directions compared with the reference; distinct = (shape, ...)')
CASES = {'quick': 1800, 'thorough': 30000}
MIN = {'serializations compared': 500, 'parsed: ok': 500}
PROFILE = gen.Profile(p_alias=.5, p_tag=.35, p_model_tag=.5, p_style=.6, p_wrapped=.25, p_odd_names=.3, p_ns=.15, models=(1, 4), p_inherit=.3,
                      p_root=.25, fields=(1, 6), p_computed=.2)
OPS = ['rename', 'rename', 'drop', 'dup', 'insert', 'attr_ns']


def case(ctx, rng):
    standard.run(ctx, rng, PROFILE, values=2, documents=2, ops=OPS, mutations=(0, 0, 1, 1))
