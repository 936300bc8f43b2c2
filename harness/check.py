"""Entry point: check.py <property id>.  Tier from VERIF_TIER, seed from VERIF_SEED."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

MODULES = {
    "C01": "props_pd", "C02": "props_pd", "C03": "props_pd", "C04": "props_pd", "C05": "props_pd", "C06": "props_pd",
    "C07": "props_pd", "C08": "props_pd", "C22": "props_pd",
    "C09": "props_perm", "C10": "props_perm",
    "C11": "props_forest", "C12": "props_forest",
    "C13": "props_boost", "C14": "props_boost", "C24": "props_boost",
    "C15": "props_life", "C16": "props_life", "C17": "props_life", "C18": "props_life",
    "C19": "props_compare", "C20": "props_plots", "C21": "props_plots", "C23": "props_plots",
}


def main():
    prop = sys.argv[1]
    import common
    os.environ["MPLCONFIGDIR"] = str(common.SCRATCH)
    os.environ["MPLBACKEND"] = "Agg"
    try:
        mod = importlib.import_module(MODULES[prop])
        res = common.Result(prop)
        getattr(mod, "check_" + prop)(res)
        code = res.finish()
    except common.Machinery as e:
        print("MACHINERY ERROR: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    common._cleanup()
    os._exit(code)


main()
