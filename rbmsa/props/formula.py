"""Obligations on the component formula and axis layout of array functions."""
from ..ctx import N, const, show, sym
from ..dom.algebra import Alg
from ..dom.arrays import Arr, ArrayEval, Err, compare, idxs, sym_array, Top

RULE = "formula"
TEXT = ("every component of the returned array, as an algebraic expression "
        "in the components of the inputs along every path, has the same "
        "normal form as the specified expression, and the returned axes are "
        "the specified ones")


def label(arrs, kw):
    parts = [f"{k}{list(a.axes)}{'q' if a.quat else ''}".replace("'", "")
             for k, a in arrs.items()]
    parts += [f"{k}={v}" for k, v in kw.items()]
    return ", ".join(parts)


def label_shapes(shapes):
    return ", ".join(f"{k}{list(a)}" for k, a in shapes.items()).replace(
        "'", "")


def to_node(v):
    if isinstance(v, N):
        return v
    return const(v)


def run_case(ctx, f, arrs, kw, I=None, alg=None, extra=None, lens=None):
    """Value of a call on symbolic arrays: (value, node, eval)."""
    I = I or ctx.interp()
    env = {}
    args = {}
    for nm, a in arrs.items():
        s = sym(nm, kind="ndarray", nonnull=True)
        env[s.k] = a
        args[nm] = s
    env.update(extra or {})
    if isinstance(f, str):
        mod, _, name = f.rpartition(".")
        f = ctx.at(I, mod, name)
    pos = []
    while f"*{len(pos)}" in args:
        pos.append(args.pop(f"*{len(pos)}"))
    r = ctx.run(I, f, pos, {**args, **{k: to_node(v)
                                       for k, v in kw.items()}})
    E = ArrayEval(alg, env)
    E.lens.update(lens or {})
    ra = taken(I, E)
    if ra is not None and ra is not MAYBE:
        return Err(f"the call raises {ra.how}", ra.loc), None, E
    if r is None:
        return (Err if ra is not MAYBE or len(I.raises) == 1 else Top)(
            "every path raises: " + ", ".join(
                sorted({str(e.how) for e in I.raises}))), None, E
    return E.ev(r), r, E


MAYBE = object()


def taken(I, E):
    """The raise statement this call certainly reaches, None when no raise
    is reachable, MAYBE otherwise."""
    maybe = None
    for e in I.raises:
        st = True
        for c, pol in e.pc:
            t = E.truthy(c)
            if t is None:
                st = None
            elif t != pol:
                st = False
                break
        if st:
            return e
        if st is None:
            maybe = MAYBE
    return maybe


def orders(shapes):
    """Two opposite order assignments of the generic lengths."""
    labs = sorted({a for ax in shapes.values() for a in ax
                   if isinstance(a, str) and a != "q!"})
    up = {a: 101 + 2 * i for i, a in enumerate(labs)}
    dn = {a: 101 + 2 * i for i, a in enumerate(reversed(labs))}
    return [up, dn] if len(labs) > 1 else [up]


def rejects(ctx, rep, f, shapes, kw, exc, name=None, rule="rejects"):
    for k, lens in enumerate(orders(shapes)):
        _rejects(ctx, rep, f, shapes, kw, exc, name, rule, lens, k)


def _rejects(ctx, rep, f, shapes, kw, exc, name, rule, lens, k):
    """The call certainly raises one of `exc`."""
    rep.rule(rule, "under the given shapes and options the branch "
                   "conditions lead every path to a raise of the specified "
                   "exception type")
    alg = Alg()
    arrs = make(alg, shapes)
    construct = f"{name or f}({label(arrs, kw)})" + " "
    construct += "<".join(sorted(lens, key=lens.get)) if len(lens) > 1 else ""

    def go():
        I = ctx.interp()
        v, n, E = run_case(ctx, f, arrs, kw, I=I, alg=alg, lens=lens)
        ra = taken(I, E)
        if ra is not None and ra is not MAYBE:
            rep.check(ra.how in exc, rule, construct, f"raises {ra.how}",
                      ra.loc)
        elif n is None and len({e.how for e in I.raises}) == 1:
            rep.check(I.raises[0].how in exc, rule, construct,
                      f"raises {I.raises[0].how}", I.raises[0].loc)
        elif ra is MAYBE:
            c = accepted(I, E, n) if n is not None else None
            if c is not None:
                rep.bad(rule, construct, "accepted where " + ", ".join(
                    f"{show(x, 4)} is {pol}" for x, pol in c), n.loc)
            else:
                rep.unknown(rule, construct, "branch conditions not decided")
        elif isinstance(v, Err):
            # NumPy raises ValueError for shapes that do not broadcast
            if ("do not broadcast" in v.msg or "layouts are stacked"
                    in v.msg) and "ValueError" in exc:
                rep.ok(rule, construct, f"raises ValueError: {v.msg}", v.loc)
            elif v.msg.startswith("eigenvectors of"):
                rep.check("LinAlgError" in exc, rule, construct,
                          "raises LinAlgError or mixes up axes: " + v.msg,
                          v.loc)
            else:
                rep.unknown(rule, construct, f"fails: {v.msg}", v.loc)
        elif isinstance(v, Arr):
            rep.bad(rule, construct, f"accepted; returns axes "
                    f"{list(v.axes)}", n.loc)
        else:
            rep.unknown(rule, construct, f"result {v!r}")
    ctx.guarded(rule, construct, go)


def accepted(I, E, n, depth=2):
    """Conditions on the data under which no raise is reached."""
    for c in list(E.asked.values())[:4]:
        if c.k in E.assume:
            continue
        for pol in (True, False):
            sub = E.fork()
            sub.zeros = True
            sub.assume = {**E.assume, c.k: (c, pol)}
            sub.asked = {}
            if not sub.witness(sub.assume.values()):
                continue
            ra = taken(I, sub)
            if ra is None:
                if isinstance(sub.ev(n), Arr):
                    return list(sub.assume.values())
            elif ra is MAYBE and depth > 1:
                r = accepted(I, sub, n, depth - 1)
                if r is not None:
                    return r
    return None


def make(alg, shapes):
    arrs = {}
    for nm, ax in shapes.items():
        quat = bool(ax) and ax[-1] == "q!"
        arrs[nm] = sym_array(alg, nm.replace("*", "a"),
                             ax[:-1] if quat else ax, quat)
    return arrs


def case(ctx, rep, f, shapes, kw, want, name=None, rule=RULE, post=None,
         I=None):
    """shapes: {param: axes | (axes, 'q')}; want(E, arrays) -> Arr."""
    alg = Alg()
    arrs = make(alg, shapes)
    construct = f"{name or f}({label(arrs, kw)})"

    def go():
        v, n, E = run_case(ctx, f, arrs, kw, I=I, alg=alg)
        w = want(E, arrs)
        for v in E.variants(n) if n is not None else (v,):
            if post:
                v = post(v, E)
            st, txt = compare(alg, v, w)
            rep.check(st, rule, construct, txt,
                      getattr(v, "loc", None) or (n.loc if n is not None
                                                  else None))
            rep.count("components_compared", len(w.cells or ()))
    rep.rule(rule, TEXT)
    ctx.guarded(rule, construct, go)


def build(axes, i_ax, vals):
    """Arr whose component axis `i_ax` carries `vals`."""
    ints = [i for i, a in enumerate(axes) if isinstance(a, int)]
    p = ints.index(i_ax % len(axes))
    return Arr(axes, {ix: vals[ix[p]] for ix in idxs(axes)})


def comps(a, axis, others=None):
    """Components of an array along `axis` (other int axes at index 0)."""
    i = axis % len(a.axes)
    ints = [k for k, x in enumerate(a.axes) if isinstance(x, int)]
    out = []
    for j in range(a.axes[i]):
        out.append(a.cells[tuple(j if k == i else 0 for k in ints)])
    return out


def mapped(ins, fn, n, out, quat=False):
    """The array of fn(components of each input), batch axis by batch axis.

    ins: [(array, position of its components, None for a scalar)]; out: the
    position of the n components of the result; axes may have any lengths,
    also small ones that could be taken for components."""
    pre = []
    for a, i in ins:
        i = None if a.quat or i is None else i % len(a.axes)
        b = tuple(x for k, x in enumerate(a.axes) if k != i)
        pre.append((a, i, b))
    d = max(len(b) for _, _, b in pre)
    batch = []
    for k in range(d):
        c = [b[k - d] for _, _, b in pre if len(b) >= d - k]
        batch.append(next((x for x in c if x != 1), 1))
    if n is not None and not quat:
        o = out % (d + 1)
        axes = tuple(batch[:o]) + (n,) + tuple(batch[o:])
    else:
        o, axes = None, tuple(batch)
    cells = {}
    for ix in idxs(batch):
        it = iter(ix)
        full = [next(it) if isinstance(x, int) else None for x in batch]
        vs = []
        for a, i, b in pre:
            def at(j):
                r, p = [], 0
                w = full[d - len(b):]
                for k, x in enumerate(a.axes):
                    if k == i:
                        r.append(j)
                    else:
                        if isinstance(x, int):
                            r.append(0 if x == 1 else w[p])
                        p += 1
                return a.cells[tuple(r)]
            vs.append(list(at(None)) if a.quat else
                      at(None) if i is None else
                      [at(j) for j in range(a.axes[i])])
        v = fn(*vs)
        if o is None:
            cells[ix] = tuple(v) if quat else v
            continue
        p = sum(isinstance(x, int) for x in batch[:o])
        for j in range(n):
            cells[ix[:p] + (j,) + ix[p:]] = v[j]
    return Arr(axes, cells, quat)
