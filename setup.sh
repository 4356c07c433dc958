#!/bin/bash
# builds the exporter and warms the dependency builds of every analysed configuration
set -e
cd "$(dirname "$0")"
python3 lib/extract.py
