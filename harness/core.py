"""Run-time context of a check: what was observed, what is covered, what is violated."""

import collections
import hashlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property does not hold: the message says how, the detail lets it be replayed and understood."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.detail = detail


class Skip(Exception):
    """The case is outside of what is judged; counted by reason."""


class Timeout(BaseException):
    pass


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big')


class Ctx:
    def __init__(self, prop, tier, seed, backend, shard=0, nshards=1):
        self.prop, self.tier, self.seed, self.backend = prop, tier, seed, backend
        self.shard, self.nshards = shard, nshards
        self.stats = collections.Counter()
        self.covered = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.harness_errors = []
        self.digests = {}
        self.case_id = None
        self.lines = {}

    @property
    def lxml(self):
        return self.backend == 'lxml'

    @property
    def quick(self):
        return self.tier == 'quick'

    def count(self, what, n=1):
        self.stats[what] += n

    def cover(self, *key):
        self.covered.add(h64(key))

    def sample(self, text, limit=3):
        if len(self.samples) < limit:
            self.samples.append({'backend': self.backend, 'case': self.case_id, 'what': str(text)[:1500]})

    def check(self, cond, msg, **detail):
        if not cond:
            raise Violation(msg, **detail)

    def report(self, exc):
        """Classifies an exception that ended a case."""
        if isinstance(exc, Violation):
            self.violations.append({'case': self.case_id, 'msg': str(exc), 'detail': {k: str(v)[:6000] for k, v in exc.detail.items()}})
        elif in_repo(exc):
            self.violations.append({
                'case': self.case_id, 'msg': 'unexpected exception: %s: %s' % (type(exc).__name__, str(exc)[:500]),
                'detail': {'traceback': ''.join(traceback.format_exception(exc))[-6000:]},
            })
        else:
            self.harness_errors.append({'case': self.case_id, 'traceback': ''.join(traceback.format_exception(exc))[-6000:]})

    def result(self):
        return {
            'backend': self.backend, 'shard': self.shard, 'stats': dict(self.stats), 'covered': sorted(self.covered),
            'samples': self.samples, 'violations': self.violations, 'known': self.known,
            'harness_errors': self.harness_errors, 'digests': self.digests, 'lines': self.lines,
        }


def package_dir():
    import pydantic_xml
    return os.path.dirname(os.path.abspath(pydantic_xml.__file__))


def in_repo(exc):
    """Whether the exception passed through the library (and not merely through a class defined with it)."""
    pkg = package_dir() + os.sep
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(pkg):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


# ---- instrumentation of the library

class Coverage:
    """Records which lines of the library run; each line costs once."""

    TOOL = sys.monitoring.COVERAGE_ID

    def __init__(self):
        self.lines = collections.defaultdict(set)

    def start(self):
        mon, pkg = sys.monitoring, package_dir() + os.sep
        mon.use_tool_id(self.TOOL, 'verif-coverage')

        def line(code, lineno):
            if code.co_filename.startswith(pkg):
                self.lines[code.co_filename[len(pkg):]].add(lineno)
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def result(self):
        return {f: sorted(ls) for f, ls in self.lines.items()}


class Steps:
    """Counts executed lines of the library: a machine independent measure of work."""

    TOOL = 4

    def __init__(self, limit=None):
        self.n = 0
        self.limit = limit

    def __enter__(self):
        mon, pkg = sys.monitoring, package_dir() + os.sep
        mon.use_tool_id(self.TOOL, 'verif-steps')
        self.n = 0

        def line(code, lineno):
            if not code.co_filename.startswith(pkg):
                return mon.DISABLE
            self.n += 1
            if self.limit and self.n > self.limit:
                raise Violation('the library does not finish within %d steps' % self.limit)

        def jump(code, offset, dest):
            return line(code, None)

        mon.register_callback(self.TOOL, mon.events.LINE, line)
        # comprehensions and one-line loops
        mon.register_callback(self.TOOL, mon.events.JUMP, jump)
        mon.set_events(self.TOOL, mon.events.LINE | mon.events.JUMP)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.register_callback(self.TOOL, mon.events.JUMP, None)
        mon.free_tool_id(self.TOOL)
        return False


# ---- known findings

def load_findings():
    """Lines 'finding: id=<id> property=<id> <what fails>' of the file kept under version control."""
    out = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            if line.startswith('finding: '):
                head, prop, what = line[len('finding: '):].rstrip('\n').split(' ', 2)
                out[head.split('=', 1)[1]] = (prop.split('=', 1)[1], what)
    return out


def dumps(o):
    return json.dumps(o, indent=1, default=str)
