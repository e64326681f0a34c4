"""C25: interval arithmetic and interval predictors."""
import numpy as np

from ..core import fx, call


def ints(a):
    a = np.asarray(a, float)
    r = np.rint(a)
    if not np.all(np.abs(a - r) < 1e-6):
        return [[999999]]
    return r.astype(int).tolist()


def pairs(i):
    """An interval of vectors [lows, highs] as a sequence of intervals."""
    i = np.asarray(i, float)
    return [[x, y] for x, y in zip(ints(np.ravel(i[0])), ints(np.ravel(i[1])))]


def some(rng, n, r=6, small=False):
    a = np.sort(rng.randint(-r, r + 1, (2, n)), axis=0).astype(float)
    kind = rng.randint(4)
    if kind == 0:
        a[1] = a[0]
    if kind == 1:
        a = np.abs(a)
        a.sort(axis=0)
    return a


def arithmetic(rng, n, lines):
    from highway_env import interval as I
    from highway_env.road.lane import StraightLane

    def add(k, got, shape, **e):
        r, err = got
        ok, value = err is None, []
        if ok:
            try:
                value = shape(r)
            except Exception as x:  # an answer of another shape
                ok, err = False, repr(x)
        lines.append(dict(e, k=k, ok=ok, err=err or "", got=value, tag="%s %d" % (k, n)))
    m = rng.randint(1, 5)
    a, b = some(rng, m), some(rng, m)
    pa, pb = pairs(a), pairs(b)
    add("product", call(I.intervals_product, a, b), lambda r: pairs(np.reshape(r, (2, 1)))[0], a=pa, b=pb)
    s, t = some(rng, 1), some(rng, 1)
    add("product", call(I.intervals_product, s[:, 0], t[:, 0]), lambda r: pairs(np.reshape(r, (2, 1)))[0], a=pairs(s), b=pairs(t))
    add("product", call(I.intervals_product, [0, 1], list(t[:, 0])), lambda r: pairs(np.reshape(r, (2, 1)))[0], a=[[0, 1]], b=pairs(t))
    q = np.array([some(rng, m) for _ in range(3)])                      # rows of intervals
    mat = np.transpose(q, (1, 0, 2))
    add("rows", call(I.intervals_product, mat, b), lambda r: pairs(np.reshape(r, (2, 3))), a=[pairs(x) for x in q], b=pb)
    k = rng.randint(-5, 6, (3, m)).astype(float)
    add("scaling", call(I.intervals_scaling, k, b), lambda r: pairs(np.reshape(r, (2, 3))), a=ints(k), b=pb)
    add("diff", call(I.intervals_diff, s[:, 0], t[:, 0]), ints, a=pairs(s)[0], b=pairs(t)[0])
    add("negative", call(I.interval_negative_part, s[:, 0]), ints, a=pairs(s)[0])
    g = np.sort(rng.randint(1, 6, 2)).astype(float)
    add("integrator", call(I.integrator_interval, s[:, 0].copy(), g.copy()), ints, a=pairs(s)[0], b=ints(g))
    box = some(rng, 2)
    d = rng.randint(-4, 5, 2)
    add("section", call(I.vector_interval_section, box, d.astype(float)), ints, a=pairs(box), dir=d.tolist())
    c, si = [(5, 0), (3, 4), (4, -3), (0, 5), (-5, 0), (-4, -3)][rng.randint(6)]
    o = rng.randint(-9, 9, 2)
    lane = StraightLane(o.astype(float), o + 20. * np.array([c, si]), width=4.)
    add("local", call(I.interval_absolute_to_local, box, lane), lambda r: [ints(np.array(x) * 5) for x in r], a=pairs(box), c=c, s=si,
        ox=int(o[0]), oy=int(o[1]))
    add("absolute", call(I.interval_local_to_absolute, box[:, 0], box[:, 1], lane), lambda r: [ints(np.array(r)[:, j] * 5) for j in range(2)],
        a=pairs(box), c=c, s=si, ox=int(o[0]), oy=int(o[1]))
    z = rng.randint(-1, 3, (3, 3)).astype(float)
    z[range(3), range(3)] = rng.randint(-5, 5, 3)
    add("metzler", call(I.is_metzler, z * [1., .01, 1e-4, 100.][n % 4]), bool, a=ints(z))
    ms = rng.randint(-3, 4, (3, 2, 2)).astype(float)
    pbox = some(rng, 2, 3)
    r, err = call(I.polytope, lambda p: ms[0] + p[0] * ms[1] + p[1] * ms[2], pbox)
    lines.append({"k": "polytope", "ok": err is None, "err": err or "", "tag": "polytope %d" % n, "m0": ints(ms[0]), "m1": ints(ms[1]), "m2": ints(ms[2]),
                  "box": pairs(pbox), "a0": ints(2 * r[0]) if err is None else [], "da": [ints(2 * x) for x in r[1]] if err is None else []})


def system(rng, kind, m):
    """A Metzler matrix, or one with real, or one with complex eigenvalues."""
    a = rng.randint(0, 3, (m, m)).astype(float)
    a[range(m), range(m)] = -rng.randint(0, 4, m)
    if kind == "complex":
        a = np.array([[0., 1.], [-float(rng.randint(2, 6)), -1.]])
    elif kind == "real":
        p, q = rng.choice([1, 2, 3, 4], 2, replace=False)
        a = np.array([[0., 1.], [-float(p * q), -float(p + q)]])
    return a


def predict(rng, n, lines):
    from highway_env.interval import LPV
    kind = "metzler" if n % 3 else "complex"
    m = 2 if kind != "metzler" else rng.randint(1, 4)
    a0 = system(rng, kind, m)
    da = [rng.randint(-1, 2, (m, m)).astype(float) for _ in range(rng.randint(1, 4))]
    box = some(rng, m)
    center = rng.randint(-3, 4, m) * (n % 2)
    inputs = rng.randint(0, 3)
    b = rng.randint(-2, 3, (m, max(inputs, 1))).astype(float)
    u = rng.randint(-3, 4, (max(inputs, 1), 1)).astype(float)
    d = rng.randint(-2, 3, (m, 1 + n % 2)).astype(float)
    w = some(rng, 1 + n % 2, 2)
    N = int(rng.choice([1, 2, 5, 10]))
    kw = dict(d=d, omega_i=w)
    if inputs:
        kw.update(b=b, u=u)
    if center.any():
        kw["center"] = center
    if rng.rand() < .2:
        kw.pop("omega_i"), kw.pop("d")
        d, w = d * 0, w * 0
    given = [box.copy(), np.array(box.mean(axis=0)), a0.copy(), center.copy()]

    def go():
        s = LPV(given[1], given[2], [x.copy() for x in da], x_i=given[0], **kw)
        s.step(1 / N)
        return s.x_i_t
    r, err = call(go)
    same = err is None and np.array_equal(given[0], box) and np.array_equal(given[2], a0) and np.array_equal(given[3], center)
    if not inputs:
        b, u = b * 0, u * 0
    lines.append({"k": "predict", "ok": err is None and same, "err": err or "", "tag": "predict %s %d" % (kind, n), "a0": ints(a0), "da": [ints(x) for x in da],
                  "box": pairs(box), "center": ints(center), "b": ints(b), "u": ints(u[:, 0]), "d": ints(d), "w": pairs(w), "n": N,
                  "got": pairs(np.array(r) * N) if err is None and np.shape(r) == (2, m) else []})


def journey(rng, n, lines):
    """A predictor, and a system that it should contain, with deviations and perturbations that change at will."""
    from highway_env.interval import LPV
    kind = ["metzler", "real", "complex"][n % 3]
    m = 2
    a0 = system(rng, kind, m)
    exact = n % 5 == 0
    scale = 0 if exact else 1
    da = [rng.randint(-1, 2, (m, m)).astype(float) * scale for _ in range(rng.randint(1, 4))]
    center = rng.randint(-3, 4, m).astype(float) if n % 2 else np.zeros(m)
    b = rng.randint(-2, 3, (m, 1)).astype(float)
    u = rng.randint(-2, 3, (1, 1)).astype(float)
    d = rng.randint(-2, 3, (m, 1)).astype(float)
    w = np.array([[-1.], [1.]]) * scale
    box = some(rng, m, 4) if not exact else np.repeat(rng.randint(-4, 5, (1, m)), 2, axis=0).astype(float)
    x = np.array([rng.uniform(box[0, i], box[1, i]) for i in range(m)])
    N = int(rng.choice([10, 15]))
    # the system stabilised by a linear feedback, which its control is then reduced by: the same system
    closed = n % 4 == 1
    gain = rng.randint(-2, 3, (1, m)).astype(float) if closed else np.zeros((1, m))
    center = center * 0 if closed else center
    given = a0.copy()
    a0 = a0 - b @ gain
    kw = {"k": gain.copy()} if closed else {}
    s, err = call(lambda: LPV(x.copy(), a0.copy(), [z.copy() for z in da], **kw, b=b, u=u, d=d, omega_i=w, center=center.copy(), x_i=box.copy()))

    def seen():
        r = np.array(s.change_coordinates(s.x_i_t, back=True, interval=True))
        return dict(lo=[fx(z, 1e4) for z in np.ravel(r[0])], hi=[fx(z, 1e4) for z in np.ravel(r[1])])
    base = {"a0": ints(a0), "metzler": bool(all(given[i, j] >= 0 for i in range(m) for j in range(m) if i != j)), "da": [ints(z) for z in da], "closed": closed, "center": [fx(z, 1e4) for z in center], "input": [fx(z, 1e4) for z in (b @ u)[:, 0]], "d": ints(d),
            "n": N, "turned": kind == "real", "exact": exact, "tag": "%s journey %d" % (kind, n)}
    r, err = call(seen) if err is None else (None, err)
    lines.append(dict(base, k="from", ok=err is None, err=err or "", x=[fx(z, 1e4) for z in x], **(r or {})))
    if err is None:             # there and back again
        p, mt = rng.uniform(-5, 5, m), rng.uniform(-5, 5, (m, m))
        given = p.copy()

        def around():
            one = s.change_coordinates(s.change_coordinates(p.copy()), back=True)
            many = s.change_coordinates(s.change_coordinates([p.copy(), 2 * p]), back=True)
            turn = s.change_coordinates(s.change_coordinates(p.copy(), offset=False), back=True, offset=False)
            whole = s.change_coordinates(s.change_coordinates(mt, matrix=True), matrix=True, back=True)
            s.change_coordinates(p)
            return [fx(z, 1e4) for z in np.concatenate([one, many[0], many[1], turn, np.ravel(whole)])]
        got, er = call(around)
        lines.append({"k": "around", "tag": base["tag"], "ok": er is None, "err": er or "", "got": got or [], "kept": bool(np.array_equal(p, given)),
                      "x": [fx(z, 1e4) for z in np.concatenate([given, given, 2 * given, given, np.ravel(mt)])]})
    wild, slack = rng.randint(3), 0.
    v, ww = rng.randint(0, len(da) + 1), rng.choice([-1, 1])
    for t in range(20 if kind != "complex" else 8):
        if err is not None:
            break
        if wild:
            v = rng.randint(0, len(da) + 1) if wild == 1 else v
            ww = rng.uniform(-1, 1) if wild == 1 else ww
        e = dict(base, k="move", vertex=int(v) if not exact else 0, w=[fx(ww * scale, 1e4)])
        # rounding errors of the specification's system grow with it
        moving = a0 + (da[e["vertex"] - 1] if e["vertex"] else 0)
        slack = slack * (np.linalg.norm(np.eye(m) + moving / N, 2) + np.linalg.norm(b @ gain, 2) / N) + 2
        # another control, or the same one
        if n % 4 < 2 and (closed or rng.rand() < .3):
            u = u if rng.rand() < .5 else rng.randint(-3, 4, (1, 1)).astype(float)
            _, err = call(lambda: s.set_control(u.copy(), x - center) if closed else s.set_control(u.copy()))
            base["input"] = e["input"] = [fx(z, 1e4) for z in (b @ u)[:, 0]]
        x = x + (moving @ (x - center) + (b @ u)[:, 0] + d[:, 0] * e["w"][0] / 1e4) / N
        e["tol"] = int(slack + 3)
        if slack > 300:
            break
        if err is None:
            _, err = call(s.step, 1 / N)
        r, err = call(seen) if err is None else (None, err)
        if err is None and max(map(abs, r["lo"] + r["hi"])) > 10 ** 7:
            break
        # the state that is expected, then
        nominal, err = call(lambda: [fx(z, 1e4) for z in np.ravel(s.change_coordinates(s.x_t, back=True))]) if err is None and exact else ([], err)
        lines.append(dict(e, ok=err is None, err=err or "", nominal=nominal or [], **(r or {})))


def run(ctx):
    ctx.model_check("MCIntervals")
    ctx.model_check("MCPredictor", workers=8, cfg=None if ctx.quick else "MCPredictorLong.cfg", timeout=600)
    rng = np.random.RandomState(ctx.seed + 2500)
    lines = []
    big = 1 if ctx.quick else 10
    for n in range(400 * big):
        arithmetic(rng, n, lines)
        predict(rng, n, lines)
    for n in range(90 * big):
        journey(rng, n, lines)
    ctx.count("operations", sum(e["k"] not in ("from", "move") for e in lines))
    ctx.count("predicted_frames", sum(e["k"] == "move" for e in lines))
    ctx.sample(lines[0])
    ctx.judge("IntervalsTrace", lines, ntraces=490 * big, timeout=800)
    ctx.require("product", "product_matrix", "scaling", "difference", "negative_part", "integrator", "integrator_around_0", "section", "to_local", "to_absolute",
                "metzler", "polytope_centre", "polytope_corners", "predictor", "naive_predictor", "starts_around", "contains", "contains_turned",
                "contains_naive", "contains_closed_loop", "nominal", "certain", "there_and_back", "keeps_arguments")
