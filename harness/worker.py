"""One worker process: runs the cases of one shard of one property with one backend."""

import argparse
import gc
import importlib
import json
import os
import random
import resource
import signal
import sys
import time

CASE_TIMEOUT = 60
STEP_LIMIT = 20_000_000


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier')
    ap.add_argument('seed')
    ap.add_argument('backend')
    ap.add_argument('shard', type=int)
    ap.add_argument('nshards', type=int)
    ap.add_argument('out')
    ap.add_argument('--case')
    ap.add_argument('--cap', type=float, default=60)
    a = ap.parse_args()

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from . import core
    import pydantic_xml
    from pydantic_xml.element import native
    if not os.path.abspath(pydantic_xml.__file__).startswith(os.path.abspath(core.REPO) + os.sep):
        raise SystemExit('wrong library: %s' % pydantic_xml.__file__)
    if ('lxml' in native.etree.__name__) != (a.backend == 'lxml'):
        raise SystemExit('wrong backend')

    ctx = core.Ctx(a.prop, a.tier, a.seed, a.backend, a.shard, a.nshards)
    mod = importlib.import_module('props.' + a.prop.lower())
    cov = None
    if getattr(mod, 'COVERAGE', True):
        cov = core.Coverage()
        cov.start()

    def alarm(*_):
        raise core.Timeout

    signal.signal(signal.SIGALRM, alarm)
    start = time.monotonic()

    def run(case_id, fn, *args):
        ctx.case_id = case_id
        signal.alarm(CASE_TIMEOUT)
        try:
            fn(ctx, *args)
        except core.Skip as e:
            ctx.count('skipped: %s' % e)
        except core.Timeout:
            signal.alarm(0)
            again(fn, *args)
        except Exception as e:
            signal.alarm(0)
            ctx.report(e)
        finally:
            signal.alarm(0)

    def again(fn, *args):
        # a timeout decides nothing: the case is repeated counting the steps of the library
        signal.alarm(300)
        try:
            with core.Steps(getattr(mod, 'STEP_LIMIT', STEP_LIMIT)):
                fn(ctx, *fresh(args))
            ctx.count('slow cases')
        except core.Timeout:
            ctx.harness_errors.append({'case': ctx.case_id, 'traceback': 'watchdog'})
        except core.Skip:
            pass
        except Exception as e:
            ctx.report(e)

    def rng_of(i):
        return random.Random('%s:%s:%s' % (a.prop, a.seed, i))

    def fresh(args):
        return [rng_of(ctx.case_id) if isinstance(x, random.Random) else x for x in args]

    # a collection of young objects alone may clear live model classes (pydantic-core reports references more than once
    # if definitions are shared); full ones find them reachable, so that only these are run, between the cases
    gc.disable()

    def collect():
        if gc.get_count()[0] > 50000:
            gc.collect()

    fixed = list(mod.fixed(ctx)) if hasattr(mod, 'fixed') else []
    if a.case is not None:
        if a.case.startswith('fixed:'):
            for name, fn in fixed:
                if 'fixed:' + name == a.case:
                    run(a.case, fn)
        else:
            run(int(a.case), mod.case, rng_of(int(a.case)))
    else:
        for k, (name, fn) in enumerate(fixed):
            if k % a.nshards == a.shard:
                run('fixed:' + name, fn)
                ctx.count('fixed scenarios')
                collect()
        n = mod.CASES[a.tier] if hasattr(mod, 'CASES') else 0
        for i in range(a.shard, n, a.nshards):
            if time.monotonic() - start > a.cap:
                ctx.count('stopped by time cap')
                break
            if len(ctx.violations) >= 5 or len(ctx.harness_errors) >= 5:
                break
            run(i, mod.case, rng_of(i))
            ctx.count('cases')
            collect()
        if hasattr(mod, 'finish'):
            run('finish', mod.finish)
    if cov:
        ctx.lines = cov.result()
    with open(a.out, 'w') as f:
        json.dump(ctx.result(), f)


if __name__ == '__main__':
    sys.setrecursionlimit(5000)
    main()
