#!/usr/bin/env python3
"""Build the compiler driver and dump the current tree once, so that the checks find the dependencies compiled."""
import check
print(check.dump()[0])
