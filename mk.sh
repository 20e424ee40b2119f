#!/bin/sh
# Regenerates the derived files.
cd "$(dirname "$0")" && python3 mkprops.py && python3 mkmanifest.py && python3 mkdesign.py
