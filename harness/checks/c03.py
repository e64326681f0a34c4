"""C03: the reward of every step follows its documented composition."""
from .. import episodes


def run(ctx):
    ctx.model_check("MCReward")
    lines, n = [], 0
    for r in episodes.drive(ctx.quick, ctx.seed + 1):
        lines += r.events
        n += 1
    ctx.count("decision_steps", sum(e["k"] == "step" for e in lines))
    ctx.sample({k: v for k, v in lines[1].items() if k not in ("frames",)})
    ctx.judge("RewardTrace", [{k: v for k, v in e.items() if k not in ("frames", "seq")} for e in lines], ntraces=n,
              describe=lambda l: {"tag": l["tag"], "steps": l["steps"], "reward": l.get("reward"), "f": l.get("f")})
    ctx.require("highway", "highway_crash", "highway_offroad", "merge", "merge_ramp", "merge_crash", "roundabout", "two_way", "intersection",
                "agents_rewards", "each_agent", "arrived", "normalised_range", "parking", "parking_multi", "summon",
                "summon_crash", "lane_keeping_straight", "lane_keeping_sine")
