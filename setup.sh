#!/bin/bash
# Builds the fact extractor and the fact base for /repo's current tree.
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.path.insert(0, 'lib'); sys.dont_write_bytecode = True
import facts; print(facts.ensure())"
