import re

from harness import canon, docs, flow, gen, nodes, standard
from harness.core import Skip

TECHNIQUE = 'runtime monitoring: differential execution of both backends on the same workload, event logs compared offline'
RULE = ('the same random universes, instances, options and documents run in processes using either backend; the recorded outcomes '
        '(instances, errors apart from lines, documents as trees) are compared case by case; distinct = (shape, edits, outcome)')
CASES = {'quick': 2400, 'thorough': 40000}
MIN = {'cross-backend comparisons': 1000, 'parsed: ok': 500, 'parsed: err': 500}
PROFILE = gen.Profile(p_computed=.15, kinds=tuple(gen.prims.COMMON))


def case(ctx, rng):
    prof = PROFILE
    r = rng.random()
    if r < .25:
        prof = PROFILE.but(p_ns=1, p_ns_attrs=.4)
    elif r < .5:
        prof = PROFILE.but(types=dict(raw=3, coll=3, prim=3, mod=2, dct=1), extras=dict(none=1, forbid=1))
    elif r < .6:
        prof = PROFILE.but(p_nillable=.7, p_opt=.6)
    log = []
    w = flow.World(ctx, rng, prof)
    try:
        for _ in range(2):
            try:
                inst = w.instance(gen.ValueOpts(p_empty=rng.choice([0, .2])))
            except Skip:
                log.append('skip')
                continue
            base = w.ref_ser(inst)
            fl = flow.flags(rng)
            how = rng.choice(['unicode', 'utf-8', 'tree'])
            got = w.serialize(inst, how, **fl)
            ctx.count('evaluations')
            log.append('W %s' % nodes.show(got))
            ctx.cover('w', w.sig, sorted(fl))
            for _ in range(3):
                doc, done = standard.document(ctx, rng, w, inst, standard.OPS + ['nil', 'root'], rng.choice([0, 0, 1, 2, 3]), base=base)
                text = nodes.write(doc, docs.style(rng, noise=2))
                ctx.count('evaluations')
                kw = {'empty_as_string': True} if rng.random() < .2 else {}
                entry = rng.choice(['bytes', 'str', 'tree'])
                try:
                    data = w.etree.fromstring(text.encode()) if entry == 'tree' else text.encode() if entry == 'bytes' else text
                    r = w.parse(data, entry, **kw)
                    o = no_lines(flow.outcome(r))
                except Exception as e:
                    r = o = ('exc', type(e).__name__)
                ctx.count('parsed: %s' % r[0])
                log.append('R %s\n%s' % (repr(o), text))
                ctx.cover('r', w.sig, done, r[0])
                if r[0] == 'ok':
                    log.append('A %s' % nodes.show(w.serialize(r[1], 'tree')))
        ctx.sample('%s\n%s' % (w.src, log[:2]))
    finally:
        w.close()
    from harness.core import h64
    ctx.digests[str(ctx.case_id)] = ['%016x %s' % (h64(x), x[:150]) for x in log]


def no_lines(o):
    if o[0] != 'err':
        return o
    return o[:2] + (tuple(sorted(((e[0], e[1], re.sub(r'^\[line -?\d+\]: ', '', e[2]), e[3]) for e in o[2]), key=repr)),)
