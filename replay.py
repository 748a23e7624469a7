#!/opt/venv/bin/python
"""replay.py FILE: run a recorded failing input against the real code."""
import json
import sys
import check


def main(path):
    body = json.load(open(path))
    check.load()
    from pyvc import harness as H
    if 'failing_input' not in body:
        print('no failing input was found; failed obligations: %s' % list(body['failed_obligations']))
        return 1
    c = next(c for c in H.CONTRACTS if c.name == body['contract'])
    st, failed, V = H.run_concrete(c, body['failing_input'])
    print(st, failed, V.trace)
    return 1 if st == 'fail' else 0


sys.exit(main(sys.argv[1]))
