#!/bin/bash
# Builds the compiler driver and dumps the current working tree once
cd "$(dirname "$0")" && exec python3 analysis/mir.py
