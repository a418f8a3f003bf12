#!/bin/bash
# build the extractor and extract the facts of the current tree once
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.path.insert(0,'engine'); import runner; print(runner.facts_dir())"
