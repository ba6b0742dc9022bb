#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core, checks_tree, checks_file, checks_durable, checks_read, checks_unit, checks_rows, checks_forest, checks_info, checks_types, checks_cli, checks_twin, checks_self
CHECKS = {}
INFO = {}
for m in (checks_tree, checks_file, checks_durable, checks_read, checks_unit, checks_rows, checks_forest, checks_info, checks_types, checks_cli, checks_twin, checks_self):
    CHECKS.update(m.CHECKS)
    INFO.update(m.INFO)
if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        core.build_harness(cli=True)
        core.build_harness(rows=True)
        sys.exit(0)
    sys.exit(core.main(CHECKS))
