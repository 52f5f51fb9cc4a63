import os, sys, json, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vh import zyg

MODULES = {
    "ck_control": ["C01", "C02", "C03", "C05", "C06", "C07", "C21"],
    "ck_bp": ["C04"],
    "ck_session": ["C10", "C11"],
    "ck_vars": ["C08", "C09"],
    "ck_console": ["C20"],
    "ck_adapter": ["C12", "C13"],
    "ck_framing": ["C14"],
    "ck_codec": ["C15"],
    "ck_paths": ["C18"],
    "ck_start": ["C19"],
    "ck_channel": ["C16"],
    "ck_listen": ["C17"],
}


def load(prop):
    import importlib
    for m, ps in MODULES.items():
        if prop in ps:
            return importlib.import_module("vh." + m)
    raise SystemExit(f"no check for {prop}")


def main():
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            o = json.load(f)
        zyg.preload()
        try:
            print(json.dumps(load(o["property"]).replay(o["replay"]), indent=1, default=str))
        finally:
            zyg.cleanup()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from vh.report import Report
    rep = Report(prop, tier, seed)
    mod = load(prop)
    try:
        if getattr(mod, "PRELOAD", True):
            zyg.preload()
        else:
            zyg.setup_env()
        mod.run(rep, prop, tier, seed)
        return rep.finish(getattr(mod, "LEVEL", "model_checking"))
    except Exception:
        traceback.print_exc()
        if rep.viols:
            # what was found before the machinery failed still counts
            return rep.finish() or 2
        return 2
    finally:
        zyg.cleanup()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
