import importlib, os, sys
if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
from . import core
core.main_wrapper(lambda: importlib.import_module("mc.checks." + sys.argv[1].lower()).main())
