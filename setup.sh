#!/bin/bash
# builds the fact extractor and warms the extraction cache (keyed by file contents)
cd "$(dirname "$0")" && python3 lib/facts.py && python3 -c "
import sys; sys.path.insert(0,'lib')
import facts; facts.load(('MAKE_DETERMINISTIC',))"
