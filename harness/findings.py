"""Deterministic probes of the known findings."""

from .core import Violation, load_findings


def judge(ctx, fid, got, correct, known, what=''):
    """got must be correct, or else exactly what the finding on record says."""
    ctx.count('known finding probes')
    if got == correct:
        return
    f = load_findings()
    if got == known and fid in f:
        ctx.known.append({'id': fid, 'what': f[fid][1]})
        return
    raise Violation('%s: expected %r, got %r' % (what or fid, correct, got))
