"""C01: one decision step = the right number of frames, the action applied once, the counters exact."""
from .. import episodes


def run(ctx):
    ctx.model_check("MCEpisode")
    if not ctx.quick:
        ctx.model_check("MCEpisode", cfg="MCEpisodeLive.cfg", label="MCEpisode (liveness)")
    lines, n = [], 0
    for r in episodes.drive(ctx.quick, ctx.seed):
        lines += r.events
        n += 1
        ctx.count("frames", r.nframes)
    for e in lines:
        if e["k"] == "step":
            ctx.count("decision_steps")
            if e["done"]:
                ctx.count("terminal_steps")
    ctx.sample({k: v for k, v in lines[1].items() if k not in ("frames",)})
    ctx.judge("EpisodeTrace", lines, ntraces=n,
              describe=lambda l: {"tag": l["tag"], "steps": l["steps"], "time": l["time"], "err": l.get("err")})
    ctx.require("step_counter", "frame_counter", "frame_duration", "short_step_only_if_over", "stops_when_over",
                "one_frame_when_closed", "action_forwarded_once", "nothing_forwarded", "decides_every_frame", "reset_zero")
