"""Routes of vehicles, in the geometry of the harness."""
import numpy as np

from .geometry import ref_of


class Routes:
    """The route that a vehicle follows, in the geometry of the harness."""

    def __init__(self, net):
        self.net, self.refs = net, {}

    def ref(self, i):
        if i not in self.refs:
            self.refs[i] = ref_of(self.net.get_lane(i))
        return self.refs[i]

    def of(self, v):
        route = v.route or [v.lane_index]
        out = []
        for a, b, i in route:
            if i is None:      # the closest to its own
                i = min(v.lane_index[2], len(self.net.graph[a][b]) - 1)
            out.append(self.ref((a, b, i)))
        s, r = out[0].local(v.position)
        return out, s, r

    @staticmethod
    def pose(route, s):
        for ref in route[:-1]:
            if s <= ref.n:
                break
            s -= ref.n
        else:
            ref = route[-1]
        return ref.position(s, 0.), ref.tangent(s) / np.hypot(*ref.tangent(s))
