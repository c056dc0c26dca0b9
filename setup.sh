#!/bin/bash
# builds the analyser
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'bin'); sys.argv=['x']
import check; print(check.driver())"
