"""C02: episodes end exactly when documented, and the step information tells the truth."""
import numpy as np

from .. import episodes, worlds as W


def length(env_id, seed):
    """Number of steps of an episode in which nothing happens."""
    env = W.gym_make(env_id)
    env.seed(seed)
    env.reset()
    e = env.unwrapped
    e.configure({"spawn_probability": 0})
    e.road.vehicles = list(e.controlled_vehicles)
    if "two-way" in env_id or "merge" in env_id or "highway" in env_id:
        a = 1
    elif "multi" in env_id:
        a = tuple(0 for _ in e.controlled_vehicles)
    elif "intersection" in env_id:
        a = 0
    elif "roundabout" in env_id:
        a = 1
    else:
        a = np.zeros(env.action_space.shape)
    n = 0
    while n < 250:
        n += 1
        if env.step(a)[2]:
            break
    env.close()
    return n


def run(ctx):
    ctx.model_check("MCEpisode")
    lines, n = [], 0
    for r in episodes.drive(ctx.quick, ctx.seed + 2):
        lines += [{k: v for k, v in e.items() if k not in ("frames", "seq")} for e in r.events]
        n += 1
    for i in W.IDS:
        if i == "intersection-multi-agent-v1":
            continue
        for s in range(1 if ctx.quick else 4):
            lines.append({"k": "length", "tag": i, "id": i, "n": length(i, ctx.seed + s), "ok": True})
            n += 1
    ctx.count("decision_steps", sum(e["k"] == "step" for e in lines))
    ctx.count("terminal_steps", sum(e["k"] == "step" and e["done"] for e in lines))
    ctx.sample(lines[1])
    ctx.judge("TerminationTrace", lines, ntraces=n,
              describe=lambda l: {"tag": l["tag"], "steps": l.get("steps"), "done": l.get("done"), "f": l.get("f")})
    ctx.require("done_iff_terminal", *["terminal_" + k for k in (
        "highway", "merge", "roundabout", "two-way", "intersection", "parking", "summon")])
    ctx.require(*["crash_ends_" + k for k in ("highway", "merge", "roundabout", "two-way", "intersection", "summon")])
    ctx.require("info_speed", "cost_highway", "cost_two-way", "cost_intersection", "succeeds", "agents_dones", "each_agent",
                "agent_arrives", "is_success", "any_agent_ends_intersection",
                "any_agent_ends_parking", "all_goals_needed", "length_summon-v0", "length_lane-keeping-v0")
