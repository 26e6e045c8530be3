#!/bin/bash
# builds the engine (the checks build their harnesses themselves, from /repo's current tree)
cd "$(dirname "$0")" && bash engine/build_engine.sh build && python3 -c "
import check; b = check.Builder(); b.engine()"
