#!/bin/sh
# DESIGN.md = head + per-property table from the harness annotations + tail
cd "$(dirname "$0")/.." && { cat tools/design/head.md; python3 tools/design_table.py; cat tools/design/tail.md; python3 tools/catch_table.py; } > DESIGN.md
