#!/bin/bash
# Builds the AST exporter, the pre-compiled external headers and the export of /repo's current tree.
cd "$(dirname "$0")" && exec python3 -c 'from jfa.prog import Program; p = Program(); print("functions", len(p.funcs))'
