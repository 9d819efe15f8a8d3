from harness import canon, flow, gen, nodes, standard
from harness.core import Skip, Violation

RULE = ('random model universes over every kind of field, random instances whose values XML can express (decided by the reference '
        'reader applied to the reference document); writing and reading back must give an equal instance and an equal second '
        'document, through text, bytes and trees; distinct = (shape of the universe, entry point)')
CASES = {'quick': 2600, 'thorough': 60000}
MIN = {'round trips': 800}
PROFILE = gen.Profile(p_exclude=0, p_noxml=0, p_nillable=.15)
ASSUMPTIONS = ['expressible values: the reference reader applied to the reference document gives the value back']


def case(ctx, rng):
    prof = PROFILE if rng.random() < .5 else PROFILE.but(
        p_wrapped=rng.choice([.1, .5]), p_ns=rng.choice([0, 1]), fields=(1, 8), p_recursive=rng.choice([0, .5]), p_optitem=rng.choice([0, .2]),
        kinds=tuple(k for k in gen.prims.ALL) if rng.random() < .5 else PROFILE.kinds)
    w = flow.World(ctx, rng, prof)
    try:
        for _ in range(3):
            try:
                inst = w.instance(gen.ValueOpts(p_empty=rng.choice([0, 0, .1])))
            except Skip as e:
                ctx.count('skipped: %s' % e)
                continue
            round_trip(ctx, rng, w, inst)
    finally:
        w.close()


def round_trip(ctx, rng, w, inst):
    c = canon.canon(inst, fields_set=False)
    doc = w.ref_ser(inst)
    try:
        ref = w.ref_parse(doc)[-1]
    except Skip as e:
        ctx.count('skipped: %s' % e)
        return
    if ref[0] != 'ok' or strip_sets(ref[1]) != c:
        ctx.count('not expressible')
        return
    how = rng.choice(['tree', 'unicode', 'utf-8', 'utf-16'])
    try:
        if how == 'tree':
            data = inst.to_xml_tree()
            again = type(inst).from_xml_tree(data)
        else:
            data = inst.to_xml(encoding=how)
            again = type(inst).from_xml(data)
    except Exception as e:
        raise Violation('%s does not round trip: %s: %s' % (how, type(e).__name__, str(e)[:800]), source=w.src, instance=repr(inst))
    ctx.count('evaluations')
    ctx.count('round trips')
    ctx.cover(w.sig, how)
    ctx.sample('%s\n%r' % (w.src, inst))
    got = canon.canon(again, fields_set=False)
    if got != c:
        raise Violation('another instance comes back: %s' % canon.cdiff(c, got), source=w.src, instance=repr(inst),
                        document=data if how != 'tree' else nodes.show(nodes.from_native(data)))
    d1 = nodes.from_native(data, tail=False) if how == 'tree' else nodes.parse(data)
    d2 = w.serialize(again, 'tree')
    has_sets = 'set' in repr(w.sig)
    if not has_sets and d1 != d2:
        raise Violation('the second document differs: %s' % nodes.diff(d1, d2), source=w.src, instance=repr(inst))


def strip_sets(c):
    """Drops the sets of given fields from a canonical form."""
    if isinstance(c, tuple):
        if len(c) == 4 and c[0] == 'model':
            c = c[:3]
        return tuple(strip_sets(x) for x in c)
    return c
