from harness import gen, standard

RULE = ('random universes dominated by dictionaries and typed dictionaries (on the element of the model, on elements, wrapped, in '
        'collections) next to attribute fields, with and without namespaced attributes; both directions; distinct = (shape, ...)')
CASES = {'quick': 1800, 'thorough': 30000}
MIN = {'event: mapping': 1500, 'serializations compared': 500}
PROFILE = gen.Profile(types=dict(dct=5, td=3, prim=3, coll=2, mod=1), items=dict(dct=4, prim=1), p_attr=.6, p_ns=.5, p_ns_attrs=.6,
                      p_opt=.3, p_inherit=.2)
OPS = ['attr_add', 'attr_add', 'attr_drop', 'attr_text', 'attr_ns', 'empty', 'dup', 'drop']


def case(ctx, rng):
    standard.run(ctx, rng, PROFILE, values=2, documents=3, ops=OPS, opts=gen.ValueOpts(p_empty=.15, p_bulk=.03), mutations=(0, 0, 1, 2, 3))
