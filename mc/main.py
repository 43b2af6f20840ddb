import importlib
import json
import os
import sys
import time
import traceback

from . import core


def write_evidence(prop, module, tier, seed, total, ncases, wall, nviol):
    cov = {}
    if module.LEVEL == "model_checking":
        cov["states"] = len(total.states)
        cov["transitions"] = total.transitions
        cov["traces_validated_against_impl"] = total.traces
        if total.evaluations:
            cov["evaluations"] = total.evaluations
    else:
        cov["evaluations"] = total.evaluations
        cov["distinct_nontrivial"] = len(total.distinct) + total.distinct_bulk
    cov["rule"] = module.RULE
    cov["cases_in_partition"] = ncases
    cov["exhaustive"] = nviol == 0
    cov["samples"] = total.samples[: core.MAX_SAMPLES]
    cov["bounds"] = module.bounds(tier) if hasattr(module, "bounds") else ""
    if total.extra:
        cov["counters"] = total.extra
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": core.jsonable(cov),
        "assumptions": list(module.ASSUMPTIONS),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(core.EVIDENCE, exist_ok=True)
    with open(os.path.join(core.EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def main(argv):
    if argv and argv[0] == "--replay":
        rep = json.load(open(argv[1]))
        core.import_impl()
        module = importlib.import_module(f"mc.checks.{rep['property'].lower()}")
        viol = core.run_case(module, rep["case"], core.Ctx(rep["tier"]))
        if viol is None:
            print(f"replay: property={rep['property']} holds on this case")
            return 0
        print(json.dumps(core.jsonable(viol), indent=1))
        print(f"VIOLATION property={rep['property']} replay={argv[1]}")
        return 1

    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = f"mc.checks.{prop.lower()}"
    t0 = time.time()

    known = dict(core.known_findings(prop))
    try:
        core.import_impl()
        module = importlib.import_module(modname)
        ncases = len(module.cases(tier))
        nproc = int(os.environ.get("MC_NPROC", os.cpu_count() or 1))
        total, violations, nrun = core.run_parallel(modname, tier, ncases, nproc, set(known))
    except SystemExit:
        raise
    except Exception as exc:
        # The code under test can't be imported, or used to describe the cases, or ends the process
        viol = {"case": None, "message": f"no case could be run: {type(exc).__name__}: {str(exc)[-800:]}",
                "detail": {"traceback": traceback.format_exc()[-4000:]}}
        path = core.write_replay(prop, viol, tier)
        print(viol["message"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1

    new = [v for v in violations if v["detail"].get("sig") not in known]
    for sig, text in known.items():
        print(f"KNOWN-FINDING: property={prop} sig={sig} {text}")

    wall = time.time() - t0
    write_evidence(prop, module, tier, seed, total, ncases, wall, len(new))
    if new:
        for viol in new:
            path = core.write_replay(prop, viol, tier)
            print(f"{prop}: {viol['message']}")
            print(json.dumps(viol["detail"])[:2000])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    n = len(total.distinct) + total.distinct_bulk
    print(
        f"{prop} {tier}: held on {nrun} cases; evaluations={total.evaluations} "
        f"distinct={n} states={len(total.states)} transitions={total.transitions} "
        f"traces={total.traces} wall={wall:.1f}s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
