"""C22: the Python module does what the C++ library does.

Runs in its own process, one line per event in --out, like the C++ harnesses. Answers
obtained through Python are compared with the same calls made from C++ (oracle.so, built
from the same tree) or with a reference written in Python.
"""
import argparse, ctypes as ct, gc, heapq, json, math, os, resource, signal, sys

M64 = (1 << 64) - 1


def mix(x):
    x = (x + 0x9e3779b97f4a7c15) & M64
    x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & M64
    x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & M64
    return x ^ (x >> 31)


class Rng:
    def __init__(self, s):
        self.s = s & M64

    def next(self):
        self.s = (self.s + 0x9e3779b97f4a7c15) & M64
        return mix(self.s)

    def u(self, a=0.0, b=1.0):
        return a + (b - a) * ((self.next() >> 11) / 9007199254740992.0)

    def i(self, a, b):
        return a + self.next() % (b - a + 1)

    def p(self, q):
        return self.u() < q

    def pick(self, v):
        return v[self.next() % len(v)]


class Case:
    def __init__(self, rng, thorough):
        self.rng, self.thorough = rng, thorough
        self.desc, self.sig, self.nontrivial = [], 0, False
        self.fails = []

    def check(self, cond, key, msg):
        counters["chk:" + key] = counters.get("chk:" + key, 0) + 1
        if not cond and len(self.fails) < 5:
            self.fails.append((key, msg if isinstance(msg, str) else msg()))
        return cond

    def count(self, k, n=1):
        counters[k] = counters.get(k, 0) + n

    def Sig(self, v):
        self.sig = (mix(self.sig ^ (hash(v) & M64)) + 1) & M64


counters = {}
nav = None
lib = None
D = ct.c_double


def darr(v):
    return (D * max(1, len(v)))(*v)


def close(a, b, tol=1e-9):
    if a == b or (math.isnan(a) and math.isnan(b)):
        return True
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def pose(p):
    return (p.x(), p.y(), p.theta)


def same_pose(p, q, tol=1e-9):
    return all(close(a, b, tol) for a, b in zip(p, q))


# ------------------------------------------------------------------ geometry
def w_geometry(c):
    r = c.rng
    c.nontrivial = True
    x, y, t = r.u(-9, 9), r.u(-9, 9), r.u(-3, 3)
    a, b, u = r.u(-9, 9), r.u(-9, 9), r.u(-3, 3)
    c.Sig(x)
    c.desc.append("%g %g %g | %g %g %g" % (x, y, t, a, b, u))
    p, q = nav.Point2d(x, y), nav.Point2d(a, b)
    c.check((p.x(), p.y()) == (x, y), "point-fields", lambda: "Point2d(%r, %r) reads (%r, %r)" % (x, y, p.x(), p.y()))
    s, d = p + q, p - q
    c.check(close(s.x(), x + a) and close(s.y(), y + b), "point-sum", "sum of points")
    c.check(close(d.x(), x - a) and close(d.y(), y - b), "point-difference", "difference of points")
    c.check((p == nav.Point2d(x, y)) and not (p == q) and (p != q) and not (p != nav.Point2d(x, y)), "point-equality", "equality of points")
    P, Q = nav.Pose2d(x, y, t), nav.Pose2d(nav.Point2d(a, b), u)
    c.check(pose(P) == (x, y, t) and pose(Q) == (a, b, u), "pose-fields", lambda: "poses read %r, %r" % (pose(P), pose(Q)))
    c.check((P.position.x(), P.position.y()) == (x, y), "pose-fields", "position of a pose")
    S, F = P + Q, P - Q
    ct_, st_ = math.cos(t), math.sin(t)
    cu_, su_ = math.cos(u), math.sin(u)
    c.check(close(S.x(), x + ct_ * a - st_ * b) and close(S.y(), y + st_ * a + ct_ * b) and close(math.remainder(S.theta - t - u, 2 * math.pi), 0), "pose-sum", lambda: "sum %r" % (pose(S),))
    c.check(close(F.x(), cu_ * (x - a) + su_ * (y - b)) and close(F.y(), -su_ * (x - a) + cu_ * (y - b)) and close(math.remainder(F.theta - t + u, 2 * math.pi), 0), "pose-difference", lambda: "difference %r" % (pose(F),))
    c.check((P == nav.Pose2d(x, y, t)) and (P != Q) and not (P == Q) and not (P != nav.Pose2d(x, y, t)), "pose-equality", "equality of poses")
    P.position = nav.Point2d(a, b)
    P.theta = u
    c.check(pose(P) == (a, b, u) and P == Q, "pose-assign", lambda: "assigned %r, reads %r" % ((a, b, u), pose(P)))
    pos = P.position
    del P
    gc.collect()
    c.check((pos.x(), pos.y()) == (a, b), "pose-lifetime", "the position of a deleted pose")
    i, j = r.i(-1000, 1000), r.i(-1000, 1000)
    g = nav.GridCellPosition(i, j)
    c.check((g.row, g.col) == (i, j), "cell-fields", "cell reads (%d, %d)" % (g.row, g.col))
    g.row, g.col = j, i
    c.check((g.row, g.col) == (j, i), "cell-fields", "cell reads (%d, %d)" % (g.row, g.col))
    c.check(str(j) in repr(g) and str(i) in repr(g), "cell-repr", repr(g))
    codes = (ct.c_int * 13)()
    lib.or_direction_codes(codes)
    mine = [nav.Direction.FORWARD, nav.Direction.BACKWARD, nav.Direction.NO_MOTION, nav.Steer.LEFT, nav.Steer.STRAIGHT, nav.Steer.RIGHT,
            nav.Status.SUCCESS, nav.Status.FAILURE, nav.SmoothingStatus.MAX_ITERATION, nav.SmoothingStatus.STEP_TOLERANCE,
            nav.SmoothingStatus.PATH_SIZE, nav.SmoothingStatus.FAILURE, nav.SmoothingStatus.COLLISION]
    for k, (e, v) in enumerate(zip(mine, codes)):
        c.check(int(e) == v, "enum", lambda: "%s is %d in Python and %d in C++" % (e, int(e), v))


# ------------------------------------------------------------------ paths
def sample(handle, path, ratios, non):
    """(Python, C++) views of a path."""
    n = len(ratios)
    out = (D * (7 + 4 * n))()
    lib.or_sample(handle, darr(ratios), n, out)
    cpp = list(out)
    py = [path.get_length()] + list(pose(path.get_initial_state())) + list(pose(path.get_final_state()))
    many = path.interpolate(ratios)
    for k, q in enumerate(ratios):
        py += list(pose(path.interpolate(q) if k % 2 else many[k]))
        py.append(int(path.get_direction(q)) if non else 0)
    return py, cpp


def compare_path(c, h, path, non, what):
    r = c.rng
    ratios = [0.0, 1.0] + [r.u() for _ in range(6)]
    py, cpp = sample(h, path, ratios, non)
    ok = len(py) == len(cpp) and all(close(a, b) for a, b in zip(py, cpp))
    c.check(ok, "path-" + what, lambda: "%s: Python %r, C++ %r" % (what, py, cpp))
    if non:
        buf = (D * 16)()
        n = lib.or_cusps(h, buf, 16)
        cusps = sorted(path.get_cusp_point_ratios())
        c.check(len(cusps) == n and all(close(a, b) for a, b in zip(cusps, buf)), "path-cusps", lambda: "%s: cusps %r, C++ %r" % (what, cusps, list(buf)[:n]))


def w_paths(c):
    r = c.rng
    c.nontrivial = True
    h = lib.or_new()
    try:
        a = (r.u(-5, 5), r.u(-5, 5), r.u(-3.1, 3.1))
        b = (r.u(-5, 5), r.u(-5, 5), r.u(-3.1, 3.1))
        c.Sig(a[0])
        kind = r.i(0, 2)
        if kind == 0:
            path = nav.PathSE2(nav.Pose2d(*a), nav.Pose2d(*b)) if r.p(0.5) else nav.PathConnectionSE2().connect(nav.Pose2d(*a), nav.Pose2d(*b))
            lib.or_line(h, *map(D, a + b))
            non = False
        elif kind == 1:
            R, sw, rev, fwd = r.pick([0.5, 1.0, 2.0]), r.pick([0.0, 0.0, 0.7]), r.pick([1.0, 1.5]), r.pick([1.0, 1.2])
            conn = nav.PathConnectionReedsShepp(R, sw, rev, fwd)
            path = conn.connect(nav.Pose2d(*a), nav.Pose2d(*b))
            del conn
            gc.collect()
            lib.or_rs(h, *map(D, a + b + (R, sw, rev, fwd)))
            non = True
            c.check(close(path.min_turning_radius, R), "path-radius", lambda: "radius %r of %r" % (path.min_turning_radius, R))
            f = pose(path.get_final_state())
            c.check(close(f[0], b[0], 1e-5) and close(f[1], b[1], 1e-5), "path-goal", lambda: "ends at %r instead of %r" % (f, b))
        else:
            wb, rear = r.u(0.5, 3), r.pick([0.0, 0.0, r.u(0, 0.4)])
            steer, length = r.u(-0.6, 0.6), r.u(0.1, 6)
            d = r.pick([1, -1])
            model = nav.KinematicBicycleModel(wb, rear)
            path = nav.PathConstantSteer(model, nav.Pose2d(*a), steer, length, nav.Direction.FORWARD if d > 0 else nav.Direction.BACKWARD)
            del model
            gc.collect()
            lib.or_steer(h, *map(D, (wb, rear) + a + (steer, length)), d)
            non = True
            c.check(close(path.steering, steer), "path-steering", lambda: "steering %r of %r" % (path.steering, steer))
            c.check(path.get_direction(0.5) == (nav.Direction.FORWARD if d > 0 else nav.Direction.BACKWARD), "path-direction", "direction of a constant steer path")
        c.desc.append("kind %d %r %r" % (kind, a, b))
        what = ("line", "reeds-shepp", "constant-steer")[kind]
        compare_path(c, h, path, non, what)
        if r.p(0.5):
            q = r.u(0.05, 1)
            path.truncate(q)
            lib.or_truncate(h, D(q))
            compare_path(c, h, path, non, what + "-truncated")
    finally:
        lib.or_delete(h)


# ------------------------------------------------------------------ maps
def shape(r, size, simple=False):
    k = r.i(0, 2 if simple else 4)
    if k == 0:
        a, b = r.u(0.1, 1) * size, r.u(0.1, 1) * size
        return nav.RectangleShape(a, b), (0, a, b, 0, [])
    if k == 1:
        a, n = r.u(0.1, 0.5) * size, r.i(3, 8)
        return nav.RegularPolygonShape(a, n), (1, a, 0.0, n, [])
    if k == 2:
        a, n = r.u(0.1, 0.5) * size, r.i(3, 12)
        return nav.CircleShape(a, n), (2, a, 0.0, n, [])
    if k == 4:
        comp, v = nav.CompositeShape(), []
        n = r.i(0, 3)
        for _ in range(n):
            s, (q, a, b, m, _v) = shape(r, size, True)
            comp.add(s)
            v += [float(q), a, b, float(m), 0.0]
        return comp, (4, 0.0, 0.0, n, v)
    v = [(r.u(-0.5, 0.5) * size, r.u(-0.5, 0.5) * size) for _ in range(r.i(2, 6))]
    return nav.PolygonShape([nav.Point2d(x, y) for x, y in v]), (3, 0.0, 0.0, len(v), [t for xy in v for t in xy])


class World:
    def __init__(self, c, lo=3, hi=7):
        r = c.rng
        self.res = r.pick([0.25, 0.5, 0.5, 1.0])
        self.hx, self.hy = r.u(lo, hi), r.u(lo, hi)
        self.x0, self.y0 = (0.0, 0.0) if r.p(0.5) else (r.u(-20, 20), r.u(-20, 20))
        self.h = lib.or_new()
        lib.or_world(self.h, *map(D, (self.res, self.hx, self.hy, self.x0, self.y0)))
        lb, ub = nav.Pose2d(-self.hx, -self.hy, -math.pi), nav.Pose2d(self.hx, self.hy, math.pi)
        self.space = nav.StateSpaceSE2(lb, ub) if r.p(0.5) else nav.StateSpaceSE2([lb, ub])
        self.map = nav.ObstacleListOccupancyMap(self.res)
        self.map.set_position(nav.Point2d(self.x0, self.y0))
        self.validator = nav.StateValidatorOccupancyMap(self.space, self.map)
        self.obs = []
        c.Sig(self.hx)
        c.desc.append("half %g %g res %g at %g %g" % (self.hx, self.hy, self.res, self.x0, self.y0))
        for _ in range(r.i(0, 5)):
            self.add(c)

    def add(self, c):
        r = c.rng
        s, (k, a, b, n, v) = shape(r, r.u(0.1, 0.6) * max(self.hx, self.hy))
        x, y, t = self.x0 + r.u(-1, 1) * self.hx, self.y0 + r.u(-1, 1) * self.hy, r.u(-3, 3)
        o = nav.Obstacle()
        o.set_shape(s)
        del s
        o.set_pose(nav.Pose2d(x, y, t))
        got = self.map.add_obstacle(o)
        want = lib.or_add(self.h, k, D(a), D(b), n, darr(v), D(x), D(y), D(t))
        c.check(got == bool(want), "map-add", lambda: "add_obstacle returns %r, C++ %r" % (got, want))
        self.obs.append(o)
        c.desc.append("+%d" % k)

    def close(self):
        lib.or_delete(self.h)


def same_file(a, b, pixels):
    with open(a, "rb") as f, open(b, "rb") as g:
        x, y = f.read(), g.read()
    return x == y and len(x) > 3 * pixels


def w_maps(c):
    r = c.rng
    c.nontrivial = True
    w = World(c)
    try:
        h, m = w.h, w.map
        R, C = m.rows(), m.columns()
        c.check((R, C) == (lib.or_rows(h), lib.or_cols(h)), "map-size", lambda: "%dx%d, C++ %dx%d" % (R, C, lib.or_rows(h), lib.or_cols(h)))
        p0 = m.get_position()
        c.check((p0.x(), p0.y()) == (w.x0, w.y0), "map-position", "position of the map")
        live = set(range(len(w.obs)))
        gvd = None
        for rnd in range(r.i(1, 3)):
            if rnd and r.p(0.5) and live:
                k = r.pick(sorted(live))
                got = m.remove_obstacle(w.obs[k])
                c.check(got == bool(lib.or_remove(h, k)), "map-remove", "remove_obstacle returns %r" % got)
                live.discard(k)
            elif rnd:
                w.add(c)
                live.add(len(w.obs) - 1)
            c.check(m.get_num_obstacles() == len(live), "map-count", "%d obstacles, expected %d" % (m.get_num_obstacles(), len(live)))
            m.update()
            lib.or_update(h)
            if gvd is None or r.p(0.2):
                gvd = gvd or nav.GVD(m)
            gvd.update()
            out = (D * (5 * R * C))()
            lib.or_cells(h, out)
            for i in range(R):
                for j in range(C):
                    cell = nav.GridCellPosition(i, j)
                    e = (i * C + j) * 5
                    flip = (i + j + rnd) % 2
                    py = (m.get_occupancy_value(i, j) if flip else m.get_occupancy_value(cell), m.is_occupied(cell),
                          gvd.get_distance_to_nearest_obstacle(i, j) if flip else gvd.get_distance_to_nearest_obstacle(cell),
                          gvd.get_distance_to_nearest_voronoi_edge(i, j) if flip else gvd.get_distance_to_nearest_voronoi_edge(cell),
                          gvd.get_path_cost(i, j) if flip else gvd.get_path_cost(cell))
                    for name, a, b in zip(("value", "occupied", "obstacle-distance", "edge-distance", "path-cost"), py, out[e:e + 5]):
                        if not c.check(close(float(a), b), "map-" + name, lambda: "cell (%d,%d): %s is %r, C++ %r" % (i, j, name, a, b)):
                            return
            dm = m.get_obstacle_map()
            for _ in range(10):
                i, j = r.i(0, R - 1), r.i(0, C - 1)
                c.check(close(dm.get_distance_to_nearest_obstacle(i, j), out[(i * C + j) * 5 + 2]) and close(dm.get_distance_to_nearest_obstacle(nav.GridCellPosition(i, j)), out[(i * C + j) * 5 + 2]), "map-distance-map", "distance map of the map")
                x, y = w.x0 + r.u(-1.2, 1.2) * w.hx, w.y0 + r.u(-1.2, 1.2) * w.hy
                p = nav.Point2d(x, y)
                got = int(gvd.get_distance_to_nearest_obstacle(p, 0.0)) + 2 * int(gvd.get_distance_to_nearest_voronoi_edge(p, 0.0)) + 4 * int(gvd.get_path_cost(p, 0.0))
                want = lib.or_point(h, D(x), D(y))
                c.check(got == want, "map-point", lambda: "queries at (%g,%g) answer %r, C++ %r" % (x, y, got, want))
            if r.p(0.3):
                gvd.visualize("py.ppm")
                lib.or_visualize(h, b"cpp.ppm", 0)
                c.check(same_file("py.ppm", "cpp.ppm", R * C), "map-image", "the images differ")
        # obstacles
        for k, o in enumerate(w.obs):
            buf, cap = (ct.c_int * 4000)(), 2000
            n = lib.or_boundary(h, k, buf, cap)
            cells = [(q.row, q.col) for q in o.get_boundary_grid_cell_position(m)]
            c.check(cells == [(buf[2 * t], buf[2 * t + 1]) for t in range(n)], "obstacle-cells", lambda: "boundary cells of obstacle %d" % k)
            vb = (D * 200)()
            n = lib.or_vertices(h, k, vb, 100)
            verts = [(q.x(), q.y()) for q in o.get_boundary_world_position()]
            c.check(len(verts) == n and all(close(a[0], vb[2 * t]) and close(a[1], vb[2 * t + 1]) for t, a in enumerate(verts)), "obstacle-vertices", lambda: "vertices of obstacle %d" % k)
        # frames
        for _ in range(20):
            x, y = r.u(-1.2, 1.2) * w.hx, r.u(-1.2, 1.2) * w.hy
            pl = nav.Point2d(x, y)
            pw = m.local_position_to_world_position(pl)
            c.check(close(pw.x(), x + w.x0) and close(pw.y(), y + w.y0), "map-frames", "local to world")
            pb = m.world_position_to_local_position(pw)
            c.check(close(pb.x(), x) and close(pb.y(), y), "map-frames", "world to local")
            cell = m.local_position_to_grid_cell(pl, False)
            orig = m.grid_cell_to_local_position(cell)
            eps = 1e-9
            c.check(-eps <= x - orig.x() <= w.res + eps and -eps <= y - orig.y() <= w.res + eps, "map-cell", lambda: "(%g,%g) is not in cell (%d,%d)" % (x, y, cell.row, cell.col))
            wo = m.grid_cell_to_world_position(cell)
            c.check(close(wo.x(), orig.x() + w.x0) and close(wo.y(), orig.y() + w.y0), "map-frames", "cell to world")
            cw = m.world_position_to_grid_cell(nav.Point2d(wo.x() + w.res / 2, wo.y() + w.res / 2), False)
            c.check((cw.row, cw.col) == (cell.row, cell.col), "map-cell", "world position to cell")
            inside = 0 <= cell.row < R and 0 <= cell.col < C
            c.check(m.is_inside_map(cell) == inside, "map-inside", "cell (%d,%d)" % (cell.row, cell.col))
            bc = m.local_position_to_grid_cell(pl, True)
            c.check((bc.row, bc.col) == ((cell.row, cell.col) if inside else (-1, -1)), "map-bounded", "bounded cell (%d,%d)" % (bc.row, bc.col))
            gl = m.grid_cell_to_local_position(nav.GridCellPosition(0, 0))
            strict = min(x - gl.x(), y - gl.y(), gl.x() + R * w.res - x, gl.y() + C * w.res - y)
            if abs(strict) > 1e-6:
                c.check(m.is_inside_map(pw) == (strict > 0), "map-inside", lambda: "world position (%g,%g)" % (pw.x(), pw.y()))
    finally:
        w.close()


# ------------------------------------------------------------------ validators
def w_validator(c):
    r = c.rng
    c.nontrivial = True
    w = World(c)
    try:
        w.map.update()
        lib.or_update(w.h)
        radius, step = r.pick([0.3, 0.5, 1.0]), r.pick([0.05, 0.1, 0.3])
        v = w.validator
        v.min_safe_radius = radius
        v.min_path_interpolation_distance = step
        c.check(close(v.min_safe_radius, radius, 1e-6) and close(v.min_path_interpolation_distance, step, 1e-6), "validator-fields", "fields of the validator")
        lib.or_safe(w.h, D(radius), D(step))
        sp = v.state_space
        b = sp.bounds
        c.check(pose(b[0]) == (-w.hx, -w.hy, -math.pi) or close(b[0].x(), -w.hx) and close(b[1].y(), w.hy), "space-bounds", lambda: "bounds %r %r" % (pose(b[0]), pose(b[1])))
        c.check(v.get_occupancy_map().get_num_obstacles() == len(w.obs) if hasattr(v.get_occupancy_map(), "get_num_obstacles") else True, "validator-map", "map of the validator")
        for _ in range(20):
            x, y, t = r.u(-1.1, 1.1) * w.hx, r.u(-1.1, 1.1) * w.hy, r.u(-3.1, 3.1)
            inb = abs(x) <= w.hx and abs(y) <= w.hy
            c.check(sp.validate_bounds(nav.Pose2d(x, y, t)) == inb, "space-validate", lambda: "(%g,%g) in bounds %g %g" % (x, y, w.hx, w.hy))
            q, e = nav.Pose2d(x, y, t), darr([x, y, t])
            sp.enforce_bounds(q)
            lib.or_enforce(w.h, e)
            c.check(pose(q) == tuple(e), "space-enforce", lambda: "%r becomes %r, C++ %r" % ((x, y, t), pose(q), list(e)))
            s = sp.sample_uniform()
            c.check(sp.validate_bounds(s), "space-sample", lambda: "sample %r out of bounds" % (pose(s),))
            g = sp.sample_gaussian(nav.Pose2d(0, 0, 0), nav.Pose2d(1, 1, 1))
            c.check(all(map(math.isfinite, pose(g))), "space-gaussian", lambda: "sample %r" % (pose(g),))
            x, y = x + w.x0, y + w.y0
            got = v.is_state_valid(nav.Pose2d(x, y, t))
            c.check(got == bool(lib.or_state(w.h, D(x), D(y), D(t))), "validator-state", lambda: "state %r valid %r" % ((x, y, t), got))
        for _ in range(8):
            a = (w.x0 + r.u(-1, 1) * w.hx, w.y0 + r.u(-1, 1) * w.hy, r.u(-3, 3))
            b = (w.x0 + r.u(-1, 1) * w.hx, w.y0 + r.u(-1, 1) * w.hy, r.u(-3, 3))
            if r.p(0.5):
                path = nav.PathSE2(nav.Pose2d(*a), nav.Pose2d(*b))
                lib.or_line(w.h, *map(D, a + b))
            else:
                path = nav.PathConnectionReedsShepp(1.0, 0.0, 1.0, 1.0).connect(nav.Pose2d(*a), nav.Pose2d(*b))
                lib.or_rs(w.h, *map(D, a + b + (1.0, 0.0, 1.0, 1.0)))
            got = v.is_path_valid(path, 0.0)
            c.check(got == bool(lib.or_path_valid(w.h)), "validator-path", lambda: "path %r %r valid %r" % (a, b, got))
        free = nav.StateValidatorSE2Free(w.space)
        x, y, t = r.u(-0.9, 0.9) * w.hx, r.u(-0.9, 0.9) * w.hy, r.u(-3, 3)
        c.check(free.is_state_valid(nav.Pose2d(x, y, t)), "validator-free", "a state in the bounds is invalid")
        c.check(free.is_path_valid(nav.PathSE2(nav.Pose2d(x, y, t), nav.Pose2d(0, 0, 0)), 0.0), "validator-free", "a path in the bounds is invalid")

        # a validator written in Python
        seen = []

        class Mine(nav.StateValidatorSE2Base):
            def __init__(self, space, limit):
                nav.StateValidatorSE2Base.__init__(self, space)
                self.limit = limit

            def IsStateValid(self, p):
                seen.append("state")
                return p.x() < self.limit

            def IsPathValid(self, path, last):
                seen.append("path")
                return path.get_length() < self.limit

        lim = r.u(-3, 3)
        mine = Mine(w.space, lim)
        x = r.u(-5, 5)
        c.check(nav.StateValidatorSE2Base.is_state_valid(mine, nav.Pose2d(x, 0, 0)) == (x < lim) and seen == ["state"], "validator-override", lambda: "calls %r" % seen)
        ln = r.u(0, 5)
        seen.clear()
        got = nav.StateValidatorSE2Base.is_path_valid(mine, nav.PathSE2(nav.Pose2d(0, 0, 0), nav.Pose2d(ln, 0, 0)), 0.0)
        c.check(got == (ln < lim) and seen == ["path"], "validator-override", lambda: "path of length %g with limit %g: %r, calls %r" % (ln, lim, got, seen))
    finally:
        w.close()


# ------------------------------------------------------------------ grid planners
def moves(R, C, occ, cost):
    adj = {}
    for i in range(R):
        for j in range(C):
            out = []
            for di in (-1, 0, 1):
                for dj in (-1, 0, 1):
                    a, b = i + di, j + dj
                    if (di or dj) and 0 <= a < R and 0 <= b < C and not occ[a][b] and not (di and dj and occ[a][j] and occ[i][b]):
                        out.append(((a, b), cost((i, j), (a, b))))
            adj[(i, j)] = out
    return adj


def dijkstra(adj, s):
    dist, q = {s: 0.0}, [(0.0, s)]
    while q:
        d, u = heapq.heappop(q)
        if d > dist[u]:
            continue
        for v, w in adj[u]:
            if d + w < dist.get(v, math.inf):
                dist[v] = d + w
                heapq.heappush(q, (d + w, v))
    return dist


def judge_grid(c, algo, st, adj, s, t, what):
    ref = dijkstra(adj, s).get(t, math.inf)
    path = [(p.row, p.col) for p in algo.get_path()]
    cost = algo.get_optimal_cost()
    if not c.check((st == nav.Status.SUCCESS) == (ref < math.inf), what + "-found", lambda: "%s: %s but the reference cost is %r" % (what, st, ref)):
        return
    c.check(close(cost, ref), what + "-cost", lambda: "%s: cost %r, reference %r" % (what, cost, ref))
    if st == nav.Status.SUCCESS:
        c.check(bool(path) and path[0] == s and path[-1] == t, what + "-ends", lambda: "%s: path %r from %r to %r" % (what, path, s, t))
        total = 0.0
        for a, b in zip(path, path[1:]):
            step = dict(adj[a]).get(b)
            if not c.check(step is not None, what + "-moves", lambda: "%s: step %r %r" % (what, a, b)):
                return
            total += step
        c.check(close(total, cost), what + "-sum", lambda: "%s: steps cost %r, reported %r" % (what, total, cost))
    else:
        c.check(path == [], what + "-empty", lambda: "%s: failed with a path" % what)


def w_grid(c):
    r = c.rng
    R, C = r.i(2, 14), r.i(2, 14)
    dens = r.pick([0.0, 0.15, 0.3, 0.45])
    occ = [[r.p(dens) for _ in range(C)] for _ in range(R)]
    salt, style = r.next(), r.i(0, 1)
    c.Sig(salt)
    c.nontrivial = True
    c.desc.append("%dx%d density %g" % (R, C, dens))

    def cost(a, b):
        d = math.hypot(a[0] - b[0], a[1] - b[1])
        k = min(a, b) + max(a, b)
        return d * (1 + style * (mix(salt ^ mix(k[0] * 1000003 + k[1] * 7919 + k[2] * 104729 + k[3])) % 1000) / 1000.0)

    adj = moves(R, C, occ, cost)
    # the reverse search uses the same propagator, towards free cells
    radj = adj

    class Map(nav.OccupancyMap):
        def __init__(self):
            nav.OccupancyMap.__init__(self, 1.0)

        def IsOccupied(self, cell):
            return occ[cell.row][cell.col]

    class Heuristic(nav.AStarHeuristicN2):
        def __init__(self):
            nav.AStarHeuristicN2.__init__(self)
            self.goal = None

        def SetGoal(self, g):
            self.goal = (g.row, g.col)

        def GetHeuristicValue(self, s):
            return math.hypot(s.row - self.goal[0], s.col - self.goal[1])

    class Propagator(nav.AStarStatePropagatorN2):
        def __init__(self):
            nav.AStarStatePropagatorN2.__init__(self)

        def GetNeighborStates(self, s):
            return [(nav.GridCellPosition(*v), nav.NullAction(), w) for v, w in adj[(s.row, s.col)]]

    fault = [None]

    def cost_fcn(a, b):
        if fault[0] is not None:
            fault[0] -= 1
            if fault[0] < 0:
                raise KeyError("injected")
        return cost((a.row, a.col), (b.row, b.col))

    def h_fcn(a, g):
        return math.hypot(a.row - g.row, a.col - g.col)

    def make_map():
        if c.rng.p(0.5):
            m = Map()
            m.initialize_size(R, C)
            return m
        m = nav.ObstacleListOccupancyMap(1.0)
        m.initialize_size(R - 0.1, C - 0.1)
        assert (m.rows(), m.columns()) == (R, C), (m.rows(), m.columns(), R, C)
        keep = []
        for i in range(R):
            for j in range(C):
                if occ[i][j]:
                    o = nav.Obstacle()
                    o.set_shape(nav.PolygonShape([nav.Point2d(0, 0)]))
                    p = m.grid_cell_to_world_position(nav.GridCellPosition(i, j))
                    o.set_pose(nav.Pose2d(p.x() + 0.5, p.y() + 0.5, 0))
                    m.add_obstacle(o)
        m.update()
        return m

    def heuristic():
        return Heuristic() if r.p(0.4) else nav.AStarHeuristicFcnN2(h_fcn)

    injecting = r.p(0.3)

    def propagator():
        if not injecting and r.p(0.3):
            return Propagator()
        return nav.AStarStatePropagatorFcnN2(make_map(), cost_fcn)

    algo = nav.AStarN2()
    bi = nav.BidirectionalAStarN2()
    # The planner is given objects nobody else refers to.
    algo.initialize(propagator(), heuristic())
    h1, h2 = heuristic(), heuristic()
    f, b = nav.BidirectionalAStarN2.get_average_heuristic_pair(h1, h2)
    bi.initialize(propagator(), propagator(), f, b)
    del f, b, h1, h2
    gc.collect()
    for k in range(r.i(1, 3)):
        s, t = (r.i(0, R - 1), r.i(0, C - 1)), (r.i(0, R - 1), r.i(0, C - 1))
        if occ[s[0]][s[1]] or occ[t[0]][t[1]]:
            continue
        for what, a in (("astar", algo), ("bidirectional", bi)):
            a.set_init_state(nav.GridCellPosition(*s))
            a.set_goal_state(nav.GridCellPosition(*t))
            if injecting and r.p(0.5):
                # an exception in a callback reaches the caller and leaves a usable planner
                fault[0] = r.i(0, 20)
                try:
                    a.search_path()
                    raised = None
                except Exception as e:
                    raised = e
                c.check(raised is None or (isinstance(raised, KeyError) and "injected" in str(raised)), "callback-error", lambda: "the error of a callback becomes %r" % (raised,))
                c.count("injected" if raised is not None else "not-reached")
                fault[0] = None
            st = a.search_path()
            c.count("searches")
            judge_grid(c, a, st, adj, s, t, what)
        ex = {(q.row, q.col) for q in algo.get_explored_states()}
        c.check(all(q in adj for q in ex), "explored", "explored states outside of the map")
        reach = dijkstra(adj, s)
        c.check(all(q in reach for q in ex), "explored", "explored states that cannot be reached")
        # What A* has to expand with a consistent heuristic, and what it has no reason to expand.
        if t in reach:
            lim = reach[t]
            must = {q for q, d in reach.items() if d + math.hypot(q[0] - t[0], q[1] - t[1]) < lim - 1e-6}
            may = {q for q, d in reach.items() if d + math.hypot(q[0] - t[0], q[1] - t[1]) < lim + 1e-6}
        else:
            must = may = set(reach)
        c.check(must <= ex <= may, "explored", lambda: "A* misses %r and has %r too many" % (sorted(must - ex)[:3], sorted(ex - may)[:3]))
        fe, re = bi.get_explored_states()
        fe, re = {(q.row, q.col) for q in fe}, {(q.row, q.col) for q in re}
        back = dijkstra(radj, t)
        c.check(all(q in reach for q in fe), "explored", "forward explored states that cannot be reached")
        c.check(all(q in back for q in re), "explored", "reverse explored states from which the goal cannot be reached")
        if t in reach and s != t:
            # the two searches meet, each having started at its own end
            c.check(s in fe and t in re, "explored", lambda: "forward search without the start or reverse search without the goal: %r %r" % (sorted(fe)[:5], sorted(re)[:5]))
        elif t not in reach:
            c.check(fe == set(reach) or re == set(back), "explored", "no search explored all it can reach")


# ------------------------------------------------------------------ hybrid A*
SEARCH = ["wheelbase", "min_turning_radius", "direction_switching_cost", "reverse_cost_multiplier", "forward_cost_multiplier",
          "voronoi_cost_multiplier", "num_generated_motion", "spatial_resolution", "angular_resolution"]
SMOOTH = ["step_tolerance", "max_iterations", "learning_rate", "path_weight", "smooth_weight", "voronoi_weight", "collision_weight",
          "curvature_weight", "collision_ratio", "max_curvature"]


def fields(o, names):
    return [float(getattr(o, n)) for n in names]


def w_hybrid(c):
    r = c.rng
    w = World(c, 3, 6)
    c.nontrivial = True
    try:
        # the same history on both sides: the distance propagation depends on it
        w.map.update()
        gvd = nav.GVD(w.map)
        gvd.update()
        lib.or_update(w.h)
        lib.or_safe(w.h, D(w.validator.min_safe_radius), D(w.validator.min_path_interpolation_distance))
        s0, m0 = (D * 9)(), (D * 10)()
        k0 = r.u(0.1, 2)
        lib.or_defaults(s0, m0, D(k0))
        c.check(fields(nav.HybridAStarSearchParameters(), SEARCH) == list(s0), "default-search", lambda: "defaults %r, C++ %r" % (fields(nav.HybridAStarSearchParameters(), SEARCH), list(s0)))
        c.check(fields(nav.HybridAStarSmootherParameters(k0), SMOOTH) == list(m0), "default-smoother", lambda: "defaults %r, C++ %r" % (fields(nav.HybridAStarSmootherParameters(k0), SMOOTH), list(m0)))
        prm = (r.pick([0.8, 1.2, 2.0]), r.pick([0.0, 0.5]), r.pick([1.0, 1.7]), r.pick([1.0, 1.3]), r.pick([0.0, 1.0]), r.pick([3, 5]), r.pick([0.5, 1.0]), r.pick([0.2, 0.4]))
        defaults = r.p(0.1)
        interp = r.pick([0.1, 0.3])
        if defaults:
            algo = nav.HybridAStar()
        else:
            p = nav.HybridAStarSearchParameters(*prm)
            c.check(fields(p, SEARCH[1:]) == [float(x) for x in prm], "search-parameters", lambda: "given %r, reads %r" % (prm, fields(p, SEARCH[1:])))
            algo = nav.HybridAStar(p)
            del p
        algo.path_interpolation = interp
        c.check(close(algo.path_interpolation, interp, 1e-6), "path-interpolation", "path interpolation reads %r" % algo.path_interpolation)
        c.desc.append("prm %r defaults %r" % (prm, defaults))
        ok = algo.initialize(w.validator)
        sp, mp = (D * 9)(), (D * 10)()
        cok = lib.or_planner(w.h, darr([float(x) for x in prm]), int(defaults), D(interp), sp, mp)
        c.check(ok == bool(cok) and ok, "initialize", "initialize returns %r" % ok)
        c.check(fields(algo.get_search_parameters(), SEARCH) == list(sp), "search-parameters", lambda: "%r, C++ %r" % (fields(algo.get_search_parameters(), SEARCH), list(sp)))
        c.check(fields(algo.smoother_parameters, SMOOTH) == list(mp), "smoother-parameters", lambda: "%r, C++ %r" % (fields(algo.smoother_parameters, SMOOTH), list(mp)))
        if r.p(0.7):
            v = [r.pick([1e-3, 1e-2]), r.i(0, 60), r.u(0.001, 0.05), r.u(0, 0.3), r.u(0, 0.5), r.u(0, 0.1), r.u(0, 0.4), r.u(0, 0.5), r.u(0.05, 0.4)]
            q = algo.smoother_parameters
            for n, x in zip(SMOOTH, v):
                setattr(q, n, x)
            algo.smoother_parameters = q
            lib.or_smoother(w.h, darr([float(x) for x in v]))
            got = fields(algo.smoother_parameters, SMOOTH)
            c.check(all(close(a, b, 1e-6) for a, b in zip(got, v)), "smoother-parameters", lambda: "set %r, reads %r" % (v, got))
        # nobody else refers to the map and the validator any more
        validator, space = w.validator, w.space
        if r.p(0.5):
            w.validator = w.space = w.map = None
        for _ in range(r.i(1, 2)):
            ends = []
            for _k in range(40):
                x, y, t = w.x0 + r.u(-0.95, 0.95) * w.hx, w.y0 + r.u(-0.95, 0.95) * w.hy, r.u(-3.1, 3.1)
                if validator.is_state_valid(nav.Pose2d(x, y, t)):
                    ends.append((x, y, t))
                    if len(ends) == 2:
                        break
            if len(ends) < 2:
                return
            a, b = ends
            algo.set_init_state(nav.Pose2d(*a))
            algo.set_goal_state(nav.Pose2d(*b))
            st = algo.search_path()
            head, out, cap = (D * 7)(), (D * 30000)(), 10000
            n = lib.or_search(w.h, *map(D, a + b), head, out, cap)
            stats = algo.get_stats()
            path = algo.get_path()
            segs = algo.get_graph_search_path()
            ex = algo.get_graph_search_explored_path_set()
            c.count("success" if st == nav.Status.SUCCESS else "failure")
            c.check(int(st) == int(head[0]), "hybrid-status", lambda: "%s, C++ %r" % (st, head[0]))
            c.check(close(algo.get_graph_search_optimal_cost(), head[1]), "hybrid-cost", lambda: "cost %r, C++ %r" % (algo.get_graph_search_optimal_cost(), head[1]))
            c.check((int(stats.graph_search_status), int(stats.smoothing_status)) == (int(head[2]), int(head[3])), "hybrid-stats", lambda: "%s %s, C++ %r %r" % (stats.graph_search_status, stats.smoothing_status, head[2], head[3]))
            c.check((len(segs), len(ex), len(algo.get_smoothed_path())) == (int(head[4]), int(head[5]), int(head[6])), "hybrid-sizes", lambda: "%d segments, %d explored, %d smoothed; C++ %r" % (len(segs), len(ex), len(algo.get_smoothed_path()), list(head)[4:]))
            c.check(len(path) == n and all(same_pose(pose(p), out[3 * k:3 * k + 3]) for k, p in enumerate(path)), "hybrid-path", lambda: "a path of %d poses, C++ %d" % (len(path), n))
            if r.p(0.2):
                algo.visualize_obstacle_heuristic("py.ppm")
                lib.or_visualize(w.h, b"cpp.ppm", 1)
                c.check(same_file("py.ppm", "cpp.ppm", 1), "hybrid-image", "the images of the heuristic differ")
            cur = a
            for s in segs:
                c.check(same_pose(pose(s.get_initial_state())[:2], cur[:2], 1e-6), "hybrid-segments", "the segments do not follow each other")
                cur = pose(s.get_final_state())
            if st == nav.Status.SUCCESS:
                c.check(close(cur[0], b[0], 1e-3) and close(cur[1], b[1], 1e-3), "hybrid-segments", "the segments end at %r" % (cur,))
            # what was returned outlives the planner
            if r.p(0.5):
                lengths = [s.get_length() for s in segs]
                kept = [pose(s.interpolate(0.5)) for s in segs]
                algo = None
                validator = None
                gc.collect()
                c.check([s.get_length() for s in segs] == lengths and [pose(s.interpolate(0.5)) for s in segs] == kept, "hybrid-lifetime", "the segments change when the planner is deleted")
                c.count("outlived")
                return
    finally:
        w.close()


WORK = {"geometry": (1, w_geometry), "paths": (3, w_paths), "maps": (2, w_maps), "validator": (2, w_validator), "grid": (3, w_grid), "hybrid": (3, w_hybrid)}


def main():
    global nav, lib
    ap = argparse.ArgumentParser()
    ap.add_argument("--module", required=True)
    for n in ("seed", "start", "count", "cpu"):
        ap.add_argument("--" + n, type=int, default=1)
    ap.add_argument("--as-mb", type=int, default=0)
    ap.add_argument("--out", required=True)
    ap.add_argument("--only")
    ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    out = open(a.out, "a", buffering=1)
    sys.path.insert(0, a.module)
    import pyplanning
    nav = pyplanning
    assert os.path.dirname(os.path.abspath(nav.__file__)) == os.path.abspath(a.module), nav.__file__
    lib = ct.CDLL(os.path.join(a.module, "oracle.so"))
    lib.or_new.restype = ct.c_void_p
    for n in ("or_delete", "or_world", "or_rows", "or_cols", "or_add", "or_remove", "or_boundary", "or_vertices", "or_update", "or_cells", "or_visualize", "or_point", "or_enforce", "or_safe", "or_state",
              "or_path_valid", "or_rs", "or_steer", "or_line", "or_truncate", "or_sample", "or_cusps", "or_planner", "or_smoother", "or_search"):
        f = getattr(lib, n)
        inner = f

        def call(h, *rest, _f=inner):
            return _f(ct.c_void_p(h), *rest)
        setattr(lib, n, call)
    nav.initialize()
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
    names = sorted(WORK)
    total = sum(WORK[n][0] for n in names)
    for i in range(a.start, a.start + a.count):
        c = Case(Rng(mix((a.seed * 0x100000001b3) & M64 ^ mix(i))), a.thorough)
        if a.only:
            name = a.only
        else:
            k = i % total
            for name in names:
                if k < WORK[name][0]:
                    break
                k -= WORK[name][0]
        out.write(json.dumps({"t": "begin", "i": i, "w": name}) + "\n")
        signal.setitimer(signal.ITIMER_VIRTUAL, a.cpu)
        c.Sig(name)
        try:
            WORK[name][1](c)
        except Exception as e:
            import traceback
            c.fails.append(("exception", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])))
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        counters["workload:" + name] = counters.get("workload:" + name, 0) + 1
        for key, msg in c.fails:
            out.write(json.dumps({"t": "fail", "i": i, "w": name, "key": key, "msg": msg[:1500], "desc": " ".join(c.desc)[:2000]}) + "\n")
        ev = {"t": "end", "i": i, "n": int(c.nontrivial), "s": str(c.sig)}
        if i - a.start < total:
            ev["d"] = (name + ": " + " ".join(c.desc))[:600]
        out.write(json.dumps(ev) + "\n")
    out.write(json.dumps({"t": "done", "counters": counters}) + "\n")


if __name__ == "__main__":
    main()
