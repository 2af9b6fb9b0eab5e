#!/bin/bash
cd "$(dirname "$0")/.." && for t in mkprops mkmanifest mkfindings mkdesign; do python3 tools/$t.py || exit 1; done
