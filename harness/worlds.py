"""Construction of the environments of the repository, and exact projections of their state."""
import numpy as np

from .core import fx, fxs, LIM


def E():
    import highway_env.envs as envs
    return envs


KINDS = {
    "highway": "HighwayEnv", "merge": "MergeEnv", "roundabout": "RoundaboutEnv", "two-way": "TwoWayEnv",
    "intersection": "IntersectionEnv", "multi-intersection": "MultiAgentIntersectionEnv", "parking": "ParkingEnv",
    "summon": "SummonEnv", "lane-keeping": "LaneKeepingEnv",
}
IDS = ["highway-v0", "merge-v0", "roundabout-v0", "two-way-v0", "intersection-v0", "intersection-multi-agent-v0",
       "intersection-multi-agent-v1", "parking-v0", "parking-ActionRepeat-v0", "summon-v0", "summon-ActionRepeat-v0",
       "lane-keeping-v0"]


def cls(kind):
    import importlib
    # every environment class is exported by highway_env.envs
    envs = importlib.import_module("highway_env.envs")
    return getattr(envs, KINDS[kind])


def make(kind, config=None, seed=0):
    """An environment of the given kind, seeded, and reset (twice: construction resets too)."""
    env = cls(kind)(config) if config else cls(kind)()
    env.seed(seed)
    env.reset()
    return env


def gym_make(env_id):
    import gym
    import highway_env  # noqa: F401  (registers)
    return gym.make(env_id)


def task(kind):
    return "intersection" if kind == "multi-intersection" else kind


def sample_action(env, rng):
    """A random element of the action space, drawn from the harness' own generator."""
    from gym import spaces

    def draw(s):
        if isinstance(s, spaces.Discrete):
            return int(rng.randint(s.n))
        if isinstance(s, spaces.Tuple):
            return tuple(draw(x) for x in s.spaces)
        return rng.uniform(-1, 1, size=s.shape).astype(np.float32)
    return draw(env.action_space)


def lane_tuple(i):
    return [str(i[0]), str(i[1]), int(i[2]) if i[2] is not None else -1]


def pos_mm(v):
    return [fx(v.position[0], 1000), fx(v.position[1], 1000)]
