"""Compare a test.sh result with the stable baseline: python3 tools_cmp.py OUT.json"""
import json
import sys

b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
p = set(json.load(open(sys.argv[1]))["passed"])
bad = sorted(b - p)
print(len(bad), "stable tests not passing", bad[:20])
sys.exit(bool(bad))
