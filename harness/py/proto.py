"""The protocol of the drivers written in Python (see front.py)."""
import json
import struct
import sys
import traceback


def real(x):
    """The two halves of a double."""
    return list(struct.unpack('>ii', struct.pack('>d', x)))


def unreal(p):
    return struct.unpack('>d', struct.pack('>ii', *p))[0]


def emit(**e):
    print('E ' + json.dumps(e))


def serve(ops, start=None):
    """Answer the commands of the standard input."""
    try:
        for line in sys.stdin:
            line = line.rstrip('\n')
            if line.startswith('SESSION '):
                n = line[8:]
                print('S ' + n)
                if start:
                    start()
            elif line == 'END':
                print('D ' + n)
                sys.stdout.flush()
            else:
                c = json.loads(line)
                ops['op_' + c['op']](c)
                sys.stdout.flush()
    except Exception:       # the fault of the driver
        traceback.print_exc()
        sys.stdout.flush()
        sys.exit(97)
