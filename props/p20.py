import copy
import gc
import random
import sys
import threading
import time

from harness import canon, docs, flow, gen, nodes, refparse, refser, render, standard
from harness.core import Skip, Violation, h64, package_dir

TECHNIQUE = ('runtime monitoring: outcomes of operations run in random histories, re-entrantly and in threads with injected switches are compared '
             'with the ones the arguments alone determine')
RULE = ('operations (parsing good and bad documents, serializing with flags) on several random universes with their outcomes according to the '
        'reference; executed in random order, nested inside validators, properties and converters of other operations, and by several '
        'threads while classes are defined, with switches injected at random lines of the library; documents, instances and namespace maps '
        'checked to be unchanged afterwards; distinct = (line of the library where a thread was suspended, line where another one went on)')
CASES = {'quick': 360, 'thorough': 5000}
MIN = {'operations in histories': 8000, 'operations in threads': 15000, 'nested operations': 5000, 'switches inside the library': 20000,
       'classes defined meanwhile': 500, 'failing operations': 2000}
STEP_LIMIT = 40000000
PROFILE = gen.Profile(models=(1, 3), fields=(1, 4), p_computed=.3, p_ns=.4, p_inherit=.15)

# what a union reads must not depend on what it has read before
UNIONS = PROFILE.but(models=(3, 4), types=dict(umod=6, tag=1, uprim=2, coll=4, prim=2), items=dict(umod=6, tag=1, prim=1), p_twin=.9, p_opt=.2)


class Switcher:
    """Suspends threads at random lines of the library and records the switches that took place."""

    TOOL = 3

    def __init__(self, seed, p):
        self.rng = random.Random(seed)
        self.p = p
        self.last = None
        self.switches = 0
        self.pairs = set()

    def __enter__(self):
        mon, pkg = sys.monitoring, package_dir()
        n = len(pkg) + 1
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        mon.use_tool_id(self.TOOL, 'verif-switches')
        ident, sleep, rnd, pairs = threading.get_ident, time.sleep, self.rng.random, self.pairs

        def line(code, lineno):
            f = code.co_filename
            if not f.startswith(pkg):
                return mon.DISABLE
            me = ident()
            last = self.last
            if last is not None and last[0] != me:
                self.switches += 1
                pairs.add((last[1][n:], last[2], f[n:], lineno))
            self.last = (me, f, lineno)
            if rnd() < self.p:
                sleep(0)

        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)
        sys.setswitchinterval(self.interval)
        return False


class Op:
    def __init__(self, what, fn, wanted, source, detail):
        self.what, self.fn, self.wanted, self.source, self.detail = what, fn, wanted, source, detail
        self.failing = wanted[0][0] != 'ok'

    def run(self):
        """None or how it went wrong."""
        try:
            got = self.fn()
        except Exception as e:
            return 'failed: %s: %s' % (type(e).__name__, str(e)[:300])
        if got not in self.wanted:
            return 'came out differently: %s' % flow.explain(self.wanted[0], got)


class Hook:
    """Runs another operation inside the current one."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.ops = []
        self.local = threading.local()
        self.p = .0
        self.bad = []
        self.n = 0
        self.budget = 60

    def __call__(self, value=None):
        depth = getattr(self.local, 'depth', 0)
        rng = getattr(self.local, 'rng', None)
        if rng is not None and self.ops and depth < 3 and self.n < self.budget and rng.random() < self.p:
            self.local.depth = depth + 1
            try:
                op = rng.choice(self.ops)
                self.n += 1
                r = op.run()
                if r:
                    self.bad.append((op, 'nested ' + r))
            finally:
                self.local.depth = depth
        return value


def universe(ctx, rng, hook):
    """Classes whose validators, properties and converters may run other operations."""
    U = gen.universe(rng, UNIONS if rng.random() < .3 else PROFILE)
    U2 = copy.deepcopy(U)
    for m in U2.models.values():
        for f in m.fields:
            if f.computed:
                f.computed = 'HOOK(%s)' % f.computed
        if not m.bases and rng.random() < .6:
            how = rng.choice(['before', 'after', 'field'] if not m.root else ['after'])
            if how == 'before':
                m.body += ["@pd.model_validator(mode='before')", '@classmethod', 'def hook_before(cls, data): return HOOK(data)']
            elif how == 'after':
                m.body += ["@pd.model_validator(mode='after')", 'def hook_after(self): return HOOK(self)']
            else:
                fs = [f for f in m.fields if not f.computed and not f.name.startswith('kind') and not f.discriminator]
                if fs:
                    m.body += ['@pd.field_validator(%r)' % rng.choice(fs).name, '@classmethod', 'def hook_field(cls, v): return HOOK(v)']
    w = flow.World(ctx, rng, None, U=U, source=render.render(U2, 'xml'), extra={'HOOK': hook})
    return w


def operations(ctx, rng, w):
    ops = []
    frozen = []
    for _ in range(3):
        try:
            inst = w.instance(gen.ValueOpts(p_bulk=0))
        except Skip:
            continue
        if len(repr(inst)) > 2000:
            # every operation runs many times, traced
            ctx.count('instances too large')
            continue
        before = canon.canon(inst)
        frozen.append(('an instance', lambda inst=inst: canon.canon(inst), before, w.src))
        for _ in range(2):
            fl = flow.flags(rng, .3)
            exp = w.ref_ser(inst, **fl)
            exp.tail = ''
            how = rng.choice(['unicode', 'utf-8', 'tree'])

            def ser(inst=inst, how=how, fl=fl):
                if how == 'tree':
                    return ('ok', nodes.from_native(inst.to_xml_tree(**fl), tail=False))
                return ('ok', nodes.parse(inst.to_xml(encoding=how, **fl)))
            ops.append(DocOp('serializing', ser, [('ok', exp)], w.src, repr(inst)))
        base = w.ref_ser(inst)
        for _ in range(4):
            doc, done = standard.document(ctx, rng, w, inst, standard.OPS, rng.choice([0, 0, 1, 2]), base=base)
            text = nodes.write(doc, docs.style(rng))
            kw = {'empty_as_string': True} if rng.random() < .2 else {}
            try:
                wanted = w.ref_parse(doc, **kw)
            except Skip:
                continue
            entry = rng.choice(['bytes', 'str', 'tree'])
            if entry == 'tree':
                data = w.etree.fromstring(text.encode())
                frozen.append(('a parsed document', lambda d=data: nodes.from_native(d), nodes.from_native(data), w.src))
            else:
                data = text.encode() if entry == 'bytes' else text

            def parse(data=data, entry=entry, kw=kw):
                return flow.outcome(w.parse(data, entry, **kw))
            ops.append(Op('parsing', parse, wanted, w.src, text))
    for m in w.U.models.values():
        if m.nsmap:
            cls = w.ex[m.name]
            frozen.append(('a namespace map', lambda cls=cls: dict(cls.__xml_nsmap__), dict(w.U.eff_nsmap(m)), w.src))
    return ops, frozen


class DocOp(Op):
    def run(self):
        try:
            got = self.fn()
        except Exception as e:
            return 'failed: %s: %s' % (type(e).__name__, str(e)[:300])
        if got not in self.wanted:
            return 'came out differently: %s' % nodes.diff(self.wanted[0][1], got[1])


def defining(ctx, rng, worlds, counter, bad):
    """New classes, some of them derived from the ones in use."""
    w = rng.choice(worlds)
    name = rng.choice(list(w.U.models))
    try:
        r = rng.random()
        if r < .5 and not w.U[name].root:
            ns = {}
            exec('class _New(%s, tag=%r, nsmap=%r, search_mode="unordered"):\n    zz: Optional[int] = element(default=None)\n' % (
                name, rng.choice(['q', 'r']), {rng.choice(['a', 'b', 'q']): 'urn:new'}), dict(w.ex), ns)
            ns['_New'](zz=1) if False else None
        elif r < .8:
            ns = dict(w.ex)
            exec('class _A(BaseXmlModel, nsmap={"a": "urn:other%d"}, ns="a"):\n    x: List[int] = element(ns="a")\n    y: str = attr(name="yy")\n'
                 'V = _A.from_xml(_A(x=[1, 2], y="z").to_xml())\nassert V == _A(x=[1, 2], y="z"), V\n' % rng.randint(0, 9), ns)
        else:
            try:
                exec('class _Bad(BaseXmlModel):\n    x: List[List[int]] = element()\n', dict(w.ex))
            except Exception:
                pass
        counter[0] += 1
    except Exception as e:
        bad.append((None, 'defining a class %s: %s: %s' % (name, type(e).__name__, str(e)[:300])))


def fail(op, how):
    raise Violation('%s %s' % (op.what if op else '', how), source=op.source if op else '', detail=op.detail if op else '')


def case(ctx, rng):
    hook = Hook(ctx)
    worlds, ops, frozen = [], [], []
    try:
        for _ in range(rng.randint(1, 3)):
            w = universe(ctx, rng, hook)
            worlds.append(w)
            o, f = operations(ctx, rng, w)
            ops += o
            frozen += f
        if not ops:
            raise Skip('no operations')
        hook.ops = ops
        # a history
        hook.local.rng = rng
        hook.p = rng.choice([0, .3])
        counter = [0]
        for _ in range(30):
            if rng.random() < .1:
                bad = []
                defining(ctx, rng, worlds, counter, bad)
                if bad:
                    fail(*bad[0])
            op = rng.choice(ops)
            r = op.run()
            ctx.count('operations in histories')
            ctx.count('evaluations')
            ctx.count('failing operations', op.failing)
            if r:
                fail(op, r)
            if hook.bad:
                fail(*hook.bad[0])
        # threads
        hook.budget += 60
        hook.p = rng.choice([0, 0, .2])
        bad = []
        done = [0]
        nthreads = rng.choice([2, 3, 6])
        gate = threading.Barrier(nthreads + 1)

        def body(seed, few):
            r = random.Random(seed)
            hook.local.rng = r
            mine = [r.choice(ops) for _ in range(3)] if few else ops
            gate.wait()
            for _ in range(60 // nthreads):
                if bad:
                    return
                op = r.choice(mine)
                x = op.run()
                done[0] += 1
                if x:
                    bad.append((op, 'by one of %d threads %s' % (nthreads, x)))

        def definer(seed):
            r = random.Random(seed)
            gate.wait()
            for _ in range(3):
                if bad:
                    return
                defining(ctx, r, worlds, counter, bad)

        few = rng.random() < .5
        threads = [threading.Thread(target=body, args=(rng.random(), few)) for _ in range(nthreads)]
        threads.append(threading.Thread(target=definer, args=(rng.random(),)))
        with Switcher(rng.random(), rng.choice([.02, .1, .3])) as sw:
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        ctx.count('operations in threads', done[0])
        ctx.count('evaluations', done[0])
        ctx.count('nested operations', hook.n)
        ctx.count('switches inside the library', sw.switches)
        ctx.count('classes defined meanwhile', counter[0])
        for p in sw.pairs:
            ctx.cover(p)
        if bad:
            fail(*bad[0])
        if hook.bad:
            fail(*hook.bad[0])
        for what, fn, before, src in frozen:
            ctx.check(fn() == before, '%s has been changed' % what, source=src)
        ctx.sample('%d threads, %d switches, e.g. %s' % (nthreads, sw.switches, sorted(sw.pairs)[:5]))
    finally:
        for w in worlds:
            w.close()
