#!/usr/bin/env python3
"""Checks that the tools the harnesses need are there. Every check builds what it needs itself."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in ("checks/checks.json", "MANIFEST.json"):
    json.load(open(os.path.join(V, f)))
for l in open(os.path.join(V, "properties.jsonl")):
    json.loads(l)
os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
sys.exit(subprocess.run(["g++", "--version"], stdout=subprocess.DEVNULL).returncode)
