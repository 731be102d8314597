"""Rule registry: property id -> (meta, [rule functions])."""
REGISTRY = {}


def prop(pid, how, assumes=(), floor=1):
    def deco(f):
        if pid not in REGISTRY:
            REGISTRY[pid] = ({'how': how, 'assumes': list(assumes), 'floor': floor}, [])
        REGISTRY[pid][1].append(f)
        return f
    return deco


from . import nlp_rules, spec_rules, problem_rules, model_rules, setup_rules, colloc_rules, lqr_rules, sampling_rules, settings_rules, diff_rules, onnx_rules, realtime_rules, plot_rules, names_rules, share_rules      # noqa: E402,F401
