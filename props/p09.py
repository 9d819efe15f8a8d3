from harness import gen, standard

RULE = ('random universes dominated by wrapped fields (paths of up to several steps, nested wrappers, shared leading parts, '
        'namespaces per wrapper); both directions, documents with missing, repeated and reordered steps; distinct = (shape, ...)')
CASES = {'quick': 1800, 'thorough': 30000}
MIN = {'event: path_found': 2000, 'event: path_missing': 300, 'serializations compared': 500}
PROFILE = gen.Profile(p_wrapped=.75, p_share=.75, p_opt=.4, fields=(2, 7), p_nonadjacent=.25, models=(1, 3),
                      modes=dict(strict=2, ordered=1, unordered=1))
OPS = ['drop', 'drop', 'dup', 'swap', 'shuffle', 'rename', 'insert', 'attr_drop', 'text', 'empty']


def case(ctx, rng):
    standard.run(ctx, rng, PROFILE, values=2, documents=4, ops=OPS, opts=gen.ValueOpts(p_none=.35, p_empty=.1), p_flags=.3)
