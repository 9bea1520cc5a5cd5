#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import importlib
MODULES = dict(H01="c_digest", H02="c_digest", H03="c_digest", H05="c_digest", H06="c_digest", H07="c_digest",
    H04="c_sp800185", I01="c_split", R01="c_behave", S01="c_behave", O01="c_behave", A01="c_behave", Q01="c_behave", M01="c_behave", C01="c_modes", K01="c_constexpr", X01="c_headers", T01="c_behave", P01="c_port", D01="c_cli", D02="c_cli")
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import core; core.set_deadline(prop, tier)
    m = importlib.import_module(MODULES[prop])
    sys.exit(m.check(prop, tier, seed))
main()
