"""Run specs read from stdin in this (fresh) process; print one hash per spec."""
import json
import sys

from . import runtime as T

if __name__ == "__main__":
    for spec in json.load(sys.stdin):
        t = T.run_spec(spec)
        print("HASH", t.status, len(t.R), T.trace_hash(t.R))
