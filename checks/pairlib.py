"""Decides 'observed = expected' pairs emitted by a probe (observed at (i,j,k), expected at (i,j,k+1000000))."""
from geomlib import *

OFF = 1000000


def show(v):
    try:
        return leaf(v).text()
    except Exception:
        return "a conditional expression"


def pairs(c, G, tag, group, where, smp=anywhere, tol=1e-9, keytag=None):
    """one obligation per pair; failures of the interpretation of that tag are reported too"""
    t, ctx = G.t, G.ctx
    keytag = keytag or tag
    for (i, j, k) in sorted(t.get(tag, {})):
        if k >= OFF:
            continue
        key = "%s/%d/%d/%d" % (keytag, i, j, k)
        got, want = t[tag][(i, j, k)], t[tag].get((i, j, k + OFF))
        if want is None:
            c.unknown(group, key, "no expected value")
            continue
        if isinstance(got, int) or isinstance(want, int):
            c.require(group, got == want, key, "%s: is %s, must be %s" % (where(tag, i, j, k), got, want))
            continue
        try:
            r = ctx.equal(got, want, smp, tol)
        except Undefined:
            c.bad(group, key, "%s: the returned value is undefined" % where(tag, i, j, k))
            continue
        if r is True:
            c.ok(group)
        elif r is None:
            c.unknown(group, key, where(tag, i, j, k))
        else:
            c.bad(group, key, "%s: returned %.6g where the definition gives %.6g (at a sample of the indeterminates)" % (where(tag, i, j, k), r[2], r[3]))


def failures(c, G, group, where):
    for (t, x), r in sorted(G.fail.items(), key=lambda kv: (kv[0][0], kv[0][1])):
        key = "%s/%s" % (t, "/".join(map(str, x)))
        msg = "%s: %s at %s" % (where(t, *x), r["why"], r["at"])
        if r["fail"] == "abort":
            c.bad(group, key, msg)
        else:
            c.unknown(group, key, msg)
