"""
Executes requests in a process of its own (started by the monitors of C24): reads pickled messages from
standard input and writes pickled answers to standard output.
"""

import os
import pickle
import struct
import sys
import tempfile


def send(stream, message):
    data = pickle.dumps(message)
    stream.write(struct.pack("<Q", len(data)) + data)
    stream.flush()


def receive(stream):
    head = stream.read(8)
    if len(head) < 8:
        return None
    return pickle.loads(stream.read(struct.unpack("<Q", head)[0]))


def main():
    from vm import core, target
    from vm.props import c20

    output = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    lib = target.Lib()
    with tempfile.TemporaryDirectory(prefix="vm-remote-") as scratch:
        while True:
            try:
                message = receive(sys.stdin.buffer)
            except Exception as error:  # pylint: disable=broad-except
                send(output, ("error", "could not be received: %r" % error))
                continue
            if message is None:
                return
            ctx = core.Ctx(lib, scratch)
            try:
                if message[0] == "execute":
                    answer = ("result", c20.execute(ctx, message[1], "r", light=True)[0])
                else:
                    subject = message[1]
                    if isinstance(subject, Exception):
                        answer = ("result", (type(subject).__name__, str(subject)), subject)
                    else:
                        answer = ("result", c20.fields_of(subject), subject)
            except core.Violation as violation:
                answer = ("violation", violation.mechanism, str(violation))
            except Exception as error:  # pylint: disable=broad-except
                answer = ("error", repr(error))
            send(output, answer)


if __name__ == "__main__":
    main()
