"""C28: example data are downloaded from their address and verified."""
from ..ctx import const, cval, show, sym
from ..interp import Dead
from ..ir import walk

FETCH = "fetched"
REJ = "rejects"
LAZY = "lazy"
BASE = "https://github.com/phausamann/rbm-data/raw/main/"
DATA = {
    "head": ("head.nc", "874eddaa51bf775c7311f0046613c6f969adef6e34fe4aea2e12"
                        "48a75ed3fee3"),
    "left_eye": ("left_eye.nc", "56d5488fb8d3ff08450663ed0136ac659c1d51eb5340"
                                "a7e3ed52f5ecf019139c"),
    "right_eye": ("right_eye.nc", "b038c4cb2f6932e4334f135cdf7e24ff9c3b578997"
                                  "7b2ae0206ba80acf54c647"),
    "rosbag": ("example.bag", "8d27f5e554f5a0e02e0bec59b60424e582f6104380f96c"
                              "3f226b4d85c107f2bc"),
}
OTHER = ("Head", "head.nc", "", "left", "registry")


def check(ctx, rep):
    rep.rule(FETCH, "example_data[name] is the path of the file retrieved "
                    "from the address of that data set and verified against "
                    "its hash")
    rep.rule(REJ, "other names reach a raise of KeyError before anything is "
                  "retrieved")
    rep.rule(LAZY, "nothing is retrieved before an item is asked for")
    I = ctx.interp()
    got = [c for c in I.load_calls if c[0].startswith("pooch.")]
    rep.check(not got, LAZY, "import of the package",
              f"calls {got[0][0]}" if got else "", got[0][2] if got else None)
    for name in DATA:
        con = f"example_data[{name!r}]"
        ctx.guarded(FETCH, con, lambda name=name, con=con: item(
            ctx, rep, con, name))
    for name in OTHER:
        con = f"example_data[{name!r}]"
        ctx.guarded(REJ, con, lambda name=name, con=con: other(
            ctx, rep, con, name))


def get(ctx, name):
    I = ctx.interp()
    seen = []

    def retrieve(I, a, k):
        o = dict(zip(("url", "known_hash", "fname", "path"), a))
        o.update(k)
        seen.append((o, I.loc))
        return sym(f"retrieved{len(seen)}", nonnull=True, kind="str")
    I.extern_hooks["pooch.retrieve"] = retrieve
    store = ctx.at(I, "", "example_data")
    try:
        r = I.getitem(I.cur(store), const(name))
    except Dead:
        r = None
    ctx.rep.seen(I)
    return I, r, seen


def text(n):
    """A constant string (paths made of constants too), or None."""
    if n is not None and n.op == "const" and isinstance(cval(n), str):
        return cval(n)
    return None


def item(ctx, rep, con, name):
    I, r, seen = get(ctx, name)
    f, h = DATA[name]
    if r is None:
        hows = sorted({str(e.how) for e in I.raises})
        rep.bad(FETCH, con, "raises " + ", ".join(hows),
                I.raises[0].loc if I.raises else None)
        return
    if len(seen) != 1:
        rep.check(False if not seen else None, FETCH, con,
                  f"{len(seen)} files are retrieved")
        return
    o, loc = seen[0]
    for what, key, want in (("address", "url", BASE + f),
                            ("hash", "known_hash", h)):
        n = o.get(key)
        t = text(n)
        if n is not None and n.op == "const" and cval(n) is None:
            rep.bad(FETCH, f"{con}: {what}", "not given", loc)
        elif t is None and n is not None:
            rep.unknown(FETCH, f"{con}: {what}", show(n, 3), loc)
        elif what == "hash" and t is not None and t.lower() in (
                want, "sha256:" + want):
            rep.ok(FETCH, f"{con}: {what}", t, loc)
        else:
            rep.check(t == want, FETCH, f"{con}: {what}",
                      f"{t}, specified {want}" if t != want else t, loc)
    # the result is that file
    n = r
    while n.op in ("pathlib.Path", "pathlib.PurePath") and len(n.args) == 1:
        n = n.args[0]
    path = r.op == "pathlib.Path"
    if n.op == "in" and n.meta[0] == "retrieved1":
        rep.check(path, FETCH, f"{con}: result",
                  "" if path else "not a path object", r.loc)
    else:
        inside = any(x.op == "in" and x.meta[0] == "retrieved1"
                     for x in walk(r))
        rep.check(False if r.op == "attr" else None if inside or r.op not in ("const", "pathlib.Path")
                  else False, FETCH, f"{con}: result", show(r, 3), r.loc)


def other(ctx, rep, con, name):
    I, r, seen = get(ctx, name)
    hows = [str(e.how) for e in I.raises]
    if r is not None and not hows:
        rep.bad(REJ, con, show(r, 3), r.loc)
    elif r is None:
        last = [e for e in I.raises]
        ok = any(h == "KeyError" for h in hows)
        rep.check(ok, REJ, con, ", ".join(hows) or "nothing raised",
                  last[-1].loc if last else None)
        rep.check(not seen, REJ, con + ": before anything is retrieved",
                  "" if not seen else "retrieved first",
                  seen[0][1] if seen else None)
    else:
        rep.unknown(REJ, con, ", ".join(hows))
