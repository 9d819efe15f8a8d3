from harness import gen, standard

RULE = ('random universes; documents derived from instances by 0-3 random edits (dropped, repeated, moved, renamed, foreign, '
        'emptied elements, attributes, texts) and written with random comments, processing instructions, CDATA, character '
        'references, prefixes and attribute order; the outcome compared with the reference reader; distinct = (shape, edits, outcome)')
CASES = {'quick': 1600, 'thorough': 30000}
MIN = {'parsed: ok': 500, 'parsed: err': 300, 'pieces of content bound': 3000}
PROFILE = gen.Profile(p_exclude=.02, p_noxml=.02)


def case(ctx, rng):
    prof = PROFILE if rng.random() < .6 else PROFILE.but(p_attr=.5, p_text=.5, p_default=.5, p_opt=.5, fields=(2, 7), p_dup=rng.choice([0, .3]))
    standard.run(ctx, rng, prof, values=2, documents=4, write=False)
