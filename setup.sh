#!/bin/bash
# Builds everything from the committed files, offline. Each check also builds what it needs itself.
cd "$(dirname "$0")" && exec python3 -m vlib.build
