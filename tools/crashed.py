"""crashed.py <property> <exit code> <stderr file> <replay file>: the replay file of a check whose process died."""
import json
import sys

prop, rc, err, out = sys.argv[1:]
tail = open(err, errors="replace").read()[-2000:]
json.dump({
    "property": prop,
    "how_to_replay": "/verif/run.sh %s re-enumerates the same space deterministically" % prop,
    "violations": [{
        "key": "crash",
        "case": "the process exploring the space died",
        "detail": "signal %d: %s" % (int(rc) - 128, tail),
    }],
}, open(out, "w"), indent=2)
