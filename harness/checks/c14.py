"""C14: searches, routes, next lanes and connections in road networks."""
import numpy as np

from .. import worlds as W
from ..core import fx, call


def build(edges, lanes=None, rng=None):
    """A real network with straight lanes; node positions are arbitrary."""
    from highway_env.road.road import RoadNetwork
    from highway_env.road.lane import StraightLane
    pos = {}
    net = RoadNetwork()
    for n, (a, b) in enumerate(edges):
        for k in (a, b):
            if k not in pos:
                pos[k] = np.array([100. * len(pos), 37. * len(pos) ** 2]) if rng is None else rng.uniform(-200, 200, 2)
        d = (pos[b] - pos[a]) / np.linalg.norm(pos[b] - pos[a])
        side = np.array([-d[1], d[0]])
        for i in range(1 if lanes is None else lanes[n]):
            net.add_lane(a, b, StraightLane(pos[a] + 4 * i * side, pos[b] + 4 * i * side))
    return net


def net_json(net):
    return {a: {b: len(ls) for b, ls in to.items()} for a, to in net.graph.items()}


def li(l):
    return [str(l[0]), str(l[1]), -1 if l[2] is None else int(l[2])]


def rt(r):
    return [li(x) for x in (r or [])]


def random_net(rng):
    from_n = rng.randint(3, 7)
    nodes = ["n%d" % i for i in range(from_n)]
    edges = [(a, b) for a in nodes for b in nodes if a != b and rng.rand() < .4]
    if not edges:
        edges = [(nodes[0], nodes[1])]
    rng.shuffle(edges)
    edges = [tuple(e) for e in edges]
    lanes = [int(rng.randint(1, 4)) for _ in edges]
    return build(edges, lanes, rng), edges, lanes


def dists(net, pos, frm):
    return {"%s>%s" % (frm, b): [fx(ref_distance(l, pos), 1000) for l in ls] for b, ls in net.graph.get(frm, {}).items()}


def ref_distance(l, pos):
    """L1 distance to a straight lane, in the harness' own geometry."""
    a, b = np.array(l.start, float), np.array(l.end, float)
    n = np.hypot(*(b - a))
    d = (b - a) / n
    s = (pos - a).dot(d)
    r = (pos - a).dot([-d[1], d[0]])
    return abs(r) + max(s - n, 0) + max(-s, 0)


def walk(net, l, rng, length):
    """A random route starting on lane l (ids sometimes unspecified)."""
    r = [l]
    while len(r) < length and net.graph.get(r[-1][1]):
        b = list(net.graph[r[-1][1]])[rng.randint(len(net.graph[r[-1][1]]))]
        r.append((r[-1][1], b, None if rng.rand() < .5 else int(rng.randint(len(net.graph[r[-1][1]][b])))))
    return r


def run(ctx):
    from highway_env.road.road import Road
    from highway_env.vehicle.controller import ControlledVehicle
    ctx.model_check("MCRoadNet")
    rng = np.random.RandomState(ctx.seed + 1400)
    graphs = ctx.generate("GenGraphs", env={"NODES": "3"})
    g4 = ctx.generate("GenGraphs", env={"NODES": "4"})
    if ctx.quick:
        g4 = [g4[i] for i in rng.permutation(len(g4))[:500]]
    lines = []
    for g in graphs + g4:
        if not g:
            continue
        g = [tuple(e) for e in g]
        order = [g[i] for i in rng.permutation(len(g))]
        net = build(order)
        nodes = sorted({n for e in g for n in e})
        ps = []
        for a in nodes:
            for b in nodes:
                p, err = call(net.shortest_path, a, b)
                # a search from a node without exit finds nothing, whether it says so by raising or not
                if err is not None:
                    p = ["error: " + err] if a in net.graph else []
                ps.append({"a": a, "b": b, "path": [str(x) for x in p]})
        lines.append({"k": "paths", "net": net_json(net), "p": ps, "tag": str(g)})
    # networks searched again after they have grown
    for n in range(40 if ctx.quick else 400):
        net, edges, lanes = random_net(rng)
        nodes = sorted({x for e in edges for x in e})
        for step in range(3):
            ps = []
            for a in nodes:
                for b in nodes:
                    p, err = call(net.shortest_path, a, b)
                    if err is not None:
                        p = ["error: " + err] if a in net.graph else []
                    ps.append({"a": a, "b": b, "path": [str(x) for x in p]})
            lines.append({"k": "paths", "net": net_json(net), "p": ps, "tag": "growing %d" % n})
            a, b = [nodes[i] for i in rng.permutation(len(nodes))[:2]]
            net.add_lane(a, b, net.lanes_list()[0])
    ctx.count("graphs_searched", len(lines))
    envs = [W.make(k, W_CFG.get(k), seed=ctx.seed) for k in ("merge", "roundabout", "intersection", "highway", "two-way")]
    for n in range(250 if ctx.quick else 2500):
        if n % 5 < 4:
            net, edges, lanes = random_net(rng)
        else:
            net = envs[(n // 5) % len(envs)].road.network
            edges = [(a, b) for a in net.graph for b in net.graph[a]]
        nj = net_json(net)
        tag = "net %d" % n

        def rlane():
            a, b = edges[rng.randint(len(edges))]
            return (a, b, int(rng.randint(len(net.graph[a][b]))))
        straight = all(type(x).__name__ == "StraightLane" for x in net.lanes_list())
        for _ in range(3):
            l = rlane()
            lines.append({"k": "side", "net": nj, "l": li(l), "side": rt(net.side_lanes(l)), "all": rt(net.all_side_lanes(l)),
                          "tag": tag})
            lines.append({"k": "get", "same": net.get_lane(l) is net.graph[l[0]][l[1]][l[2]]
                          and (len(net.graph[l[0]][l[1]]) > 1 or net.get_lane((l[0], l[1], None)) is net.get_lane(l)),
                          "tag": tag})
            # connection
            l1, l2 = rlane(), rlane()
            route = [None, walk(net, l1, rng, 4), walk(net, l1, rng, 4)[1:], walk(net, rlane(), rng, 3)][rng.randint(4)]
            if route and rng.rand() < .4:   # on the way, the lane may not be the one with which the route starts
                a, b = route[0][:2]
                route[0] = (a, b, None if rng.rand() < .3 else int(rng.randint(len(net.graph[a][b]))))
            depth, same = int(rng.randint(5)), bool(rng.rand() < .3)
            r0 = rt(route)
            res, err = call(net.is_connected_road, l1, l2, list(route) if route is not None else None, same, depth)
            lines.append({"k": "conn", "net": nj, "l1": li(l1), "l2": li(l2), "route": r0, "after": rt(route), "same": same,
                          "depth": depth, "ok": err is None, "err": err or "", "res": bool(res), "tag": tag})
            if straight:
                # next lane
                l = rlane()
                far = 4 if rng.rand() < .6 else int(rng.randint(5, 10))
                route = [None, walk(net, l, rng, far), walk(net, l, rng, far)[1:], walk(net, rlane(), rng, 3)][rng.randint(4)]
                if route and rng.rand() < .4:
                    a, b = route[0][:2]
                    route[0] = (a, b, None if rng.rand() < .3 else int(rng.randint(len(net.graph[a][b]))))
                pos = net.get_lane(l).position(net.get_lane(l).length, 0) + rng.uniform(-6, 6, 2)
                r0 = rt(route)
                r = list(route) if route is not None else None
                res, err = call(net.next_lane, l, route=r, position=pos, np_random=np.random.RandomState(rng.randint(10 ** 6)))
                lines.append({"k": "next", "net": nj, "l": li(l), "route": r0, "after": rt(r), "dist": dists(net, pos, l[1]),
                              "n": li(res) if err is None else li(l), "ok": err is None, "err": err or "", "tag": tag})
        # vehicles: planned routes, following the road, alternatives at the next intersection
        road = Road(net, np_random=np.random.RandomState(rng.randint(10 ** 6)))
        for _ in range(2):
            l = rlane()
            lane = net.get_lane(l)
            v = ControlledVehicle(road, lane.position(rng.uniform(0, lane.length), 0), lane.heading_at(0), 10,
                                  target_lane_index=None if rng.rand() < .6 else rlane())
            nodes = sorted({x for e in edges for x in e})
            b = nodes[rng.randint(len(nodes))]
            _, err = call(v.plan_route_to, b)
            lines.append({"k": "plan", "net": nj, "l": li(v.lane_index), "b": b, "route": rt(v.route), "ok": err is None,
                          "err": err or "", "tag": tag})
            v.route = walk(net, l if rng.rand() < .6 else rlane(), rng, int(rng.randint(1, 8))) if rng.rand() < .9 else None
            r0 = rt(v.route)
            rs, err = call(v.get_routes_at_intersection)
            to = "random" if rng.rand() < .3 else int(rng.randint(6))
            _, err2 = call(v.set_route_at_intersection, to)
            lines.append({"k": "inter", "net": nj, "route": r0, "routes": [rt(x) for x in (rs or [])], "ok": err is None,
                          "ok2": err2 is None, "err": err or err2 or "", "to": "random" if to == "random" else "given",
                          "n": 0 if to == "random" else to, "chosen": rt(v.route), "tag": tag})
            if straight:
                l = rlane()
                lane = net.get_lane(l)
                v = ControlledVehicle(road, lane.position(0, 0), lane.heading_at(0), float(rng.choice([10, 10, 0, -5, 25])), target_lane_index=l,
                                      route=walk(net, l, rng, 4) if rng.rand() < .8 else None)
                off = rng.choice([-30, -2.6, -2.4, 0, 3])
                v.position = lane.position(lane.length + off, rng.uniform(-1, 1))
                r0 = rt(v.route)
                _, err = call(v.follow_road)
                lines.append({"k": "follow", "net": nj, "l": li(l), "route": r0, "after": rt(v.route), "ended": bool(off > -2.5),
                              "dist": dists(net, v.position, l[1]), "n": li(v.target_lane_index), "err": err or "", "tag": tag})
    for kind in {l["k"] for l in lines}:
        ctx.count("events_" + kind, sum(l["k"] == kind for l in lines))
    ctx.sample(lines[-1])
    ctx.judge("RoadNetTrace", lines, ntraces=len(graphs) + len(g4), timeout=800)
    ctx.require("shortest_path", "planned_route", "next_lane", "route_consumed", "side_lanes", "all_side_lanes", "connected",
                "routes_at_intersection", "route_chosen", "follow_road", "get_lane")


W_CFG = {"highway": {"vehicles_count": 2}}
