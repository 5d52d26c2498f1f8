"""Growing and pruning particle storage."""
import numpy as np
from sympic.harness import Scn
from . import common as C
from . import ptools as PT

BOUNDS = "storage of 0..6 slots (thorough 8) with free dead flags, event flags and attribute values; growth by -1..4 slots; pruning with five buffer factors; base, QED, spin and spin-QED particle classes, extra attributes; up to three operations in a row"
OUTSIDE = "longer storages"
ASSUMPTIONS = ["buffer factor not negative"]
PYFUNCS = ["lambdapic.core.particles:ParticlesBase.initialize/extend/prune/is_alive/__setstate__", "lambdapic.core.particles:QEDParticles.initialize/extend/prune", "lambdapic.core.particles:SpinParticles/SpinQEDParticles"]


def content(cx, q, tag, n, pattern):
    for at in q.attrs:
        if at == "_id":
            continue
        a = cx.zeros((n,))
        for k in range(n):
            a[k] = cx.real("%s_%s[%d]" % (tag, at, k))
        setattr(q, at, a)
    q.is_dead = np.array([cx.bool("%s_dead%d" % (tag, k)) if pattern is None else pattern[k] == "d" for k in range(n)], dtype=bool)
    if hasattr(q, "event"):
        q.event = np.array([cx.bool("%s_ev%d" % (tag, k)) if k < 3 else k % 2 == 0 for k in range(n)], dtype=bool)


def snap(q):
    s = {at: np.array(getattr(q, at), copy=True) for at in q.attrs}
    s["is_dead"] = np.array(q.is_dead)
    if hasattr(q, "event"):
        s["event"] = np.array(q.event)
    return s


def rows(s):
    return [k for k in range(len(s["is_dead"])) if not s["is_dead"][k]]


def run(cx, cls, n, ops, pattern=None, extra=()):
    from lambdapic.core import particles as PM
    q = getattr(PM, cls)(ipatch=3, rank=1)
    q.attrs += list(extra)
    q.initialize(n)
    content(cx, q, "p", n, pattern)
    for io, (op, arg) in enumerate(ops):
        b = snap(q)
        q.extended = False
        ids = PT.bits(q._id)
        cx.ok(len(set(int(i) for i in ids)) == len(ids), "ids differ before")
        if op == "extend":
            q.extend(arg)
            g = max(arg, 0)
            cx.ok(q.npart == n + g, "slot count after growth: %d" % q.npart)
        else:
            q.prune(**({} if arg is None else dict(extra_buff=arg)))
        a = snap(q)
        name = "%d:%s(%s)" % (io, op, arg)
        for at in a:
            cx.ok(len(a[at]) == q.npart, "%s: %s has %d entries for %d slots" % (name, at, len(a[at]), q.npart))
        cx.ok(q.extended or q.npart == n, "%s: size changed without the extended flag" % name)
        if op == "extend":
            for at in a:
                for k in range(n):
                    if at in ("is_dead", "event"):
                        cx.ok(bool(a[at][k]) == bool(b[at][k]), "%s: %s[%d] changed" % (name, at, k))
                    elif at == "_id":
                        cx.ok(PT.bits(a[at])[k] == PT.bits(b[at])[k], "%s: id of slot %d changed" % (name, k))
                    else:
                        cx.eq(a[at][k], b[at][k], "%s: %s[%d] changed" % (name, at, k))
            for k in range(n, q.npart):
                cx.ok(bool(a["is_dead"][k]), "%s: new slot %d is alive" % (name, k))
                cx.eq(a["w"][k], 0, "%s: new slot %d has weight" % (name, k))
                if "event" in a:
                    cx.ok(not a["event"][k], "%s: new slot %d has an event" % (name, k))
        else:
            bi = {int(i): k for k, i in enumerate(PT.bits(b["_id"])) if not b["is_dead"][k]}
            ai = {int(i): k for k, i in enumerate(PT.bits(a["_id"])) if not a["is_dead"][k]}
            cx.ok(len(rows(a)) == len(ai), "%s: ids of live particles duplicated" % name)
            cx.ok(sorted(ai) == sorted(bi), "%s: live particles lost or invented: %s -> %s" % (name, sorted(bi), sorted(ai)))
            for i in ai:
                if i in bi:
                    for at in a:
                        if at in ("is_dead", "event"):
                            cx.ok(bool(a[at][ai[i]]) == bool(b[at][bi[i]]), "%s: %s of particle %x not carried along" % (name, at, i))
                        elif at != "_id":
                            cx.eq(a[at][ai[i]], b[at][bi[i]], "%s: %s of particle %x changed" % (name, at, i))
            cx.ok(q.npart <= n, "%s: pruning grew the storage" % name)
        n = q.npart


def scenarios(tier):
    full = tier == "thorough"
    out = []

    def add(cls, n, *ops, pattern=None, extra=(), w=False):
        out.append(Scn("%s-%d-%s%s" % (cls, n, ".".join("%s%s" % (o[0], "" if o[1] is None else o[1]) for o in ops), "-" + pattern if pattern else ""), run,
                       dict(cls=cls, n=n, ops=list(ops), pattern=pattern, extra=list(extra)), witness=w))
    for cls in ("ParticlesBase", "QEDParticles", "SpinParticles", "SpinQEDParticles"):
        for g in (-1, 0, 1, 4):
            add(cls, 2, ("extend", g))
        add(cls, 0, ("extend", 3), ("prune", None))
        add(cls, 3, ("prune", None), w=True)
        add(cls, 4 if "QED" in cls else 5, ("prune", 0.0))
        add(cls, 3, ("extend", 2), ("prune", 0.1), ("extend", 1))
        add(cls, 3, ("prune", 0.0), ("extend", 2), ("prune", 0.5))
    add("ParticlesBase", 6 + full, ("prune", 0.25))
    add("ParticlesBase", 5, ("prune", 2.0))
    add("QEDParticles", 3, ("prune", 1.0), ("prune", 0.0))
    add("QEDParticles", 4, ("extend", 3), ("prune", 0.0), extra=["aux1", "aux2"], w=True)
    add("ParticlesBase", 24, ("prune", 0.1), pattern="ldldldlddddlllldddldldld")
    add("QEDParticles", 40, ("prune", 0.1), ("extend", 7), pattern="ldldldlddddlllldddld" * 2)
    if full:
        for cls in ("ParticlesBase", "QEDParticles"):
            add(cls, 6, ("prune", 0.1), ("extend", 2), ("prune", 0.0))
        add("ParticlesBase", 8, ("prune", 0.1))
    return out
