#!/bin/bash
# check.sh PXX [tier]
cd "$(dirname "$0")" && exec python3 -m jfa.run "$1" --tier "${2:-quick}"
