"""Replica interpreters: the same operation in another process, with another hash seed, with or without a past."""
import hashlib
import os
import pickle
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def operations():
    from . import env, observe

    def mapped(m):
        return [(p.name, p.description, p.address, p.allocated_range,
                 [(r.name, r.display_name, r.description, r.address, r.size, observe.plain(r.access),
                   observe.plain(r.protection), r.reset_value, r.reset_mask, observe.plain(r.fields))
                  for r in p.registers]) for p in m.peripheral_map]

    P = env.Parser.from_xml_content
    R = env.Process.from_xml_content
    return {
        "parse": lambda x: observe.parsed(P(x).get_parsed_device()),
        "process": lambda x: observe.processed(R(x).get_processed_device()),
        "map": lambda x: mapped(env.PeripheralRegisterMap.from_xml_content(x)),
        "serialize": lambda x: env.Serializer.device_to_svd_content(P(x).get_parsed_device()),
        "convert": lambda x: observe.parsed(R(x).convert_processed_device_to_svd_device()),
        "validate": lambda x: env.Validator.validate_xml_content(x),
        "validate-old": lambda x: env.Validator.validate_xml_content(x, False, env.SVDSchemaVersion.V1_1),
    }


def outcome(call):
    """What a caller can tell: value, warnings (as a multiset) and kind of exception."""
    return (call.exc_name, sorted(call.warnings), call.value)


def digest(call):
    return hashlib.blake2b(repr(outcome(call)).encode("utf-8", "backslashreplace"), digest_size=16).hexdigest()


def serve(fork):
    from . import observe
    ops = operations()
    inp, out = sys.stdin.buffer, sys.stdout.buffer

    def answer(op, xml):
        return digest(observe.Call(lambda: ops[op](xml)))

    while True:
        head = inp.read(4)
        if len(head) < 4:
            return
        op, xml = pickle.loads(inp.read(struct.unpack("<I", head)[0]))
        if fork:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.write(w, answer(op, xml).encode())
                finally:
                    os._exit(0)
            os.close(w)
            got = b""
            while chunk := os.read(r, 100):
                got += chunk
            os.close(r)
            os.waitpid(pid, 0)
            got = got.decode()
        else:
            got = answer(op, xml)
        out.write(struct.pack("<I", len(got)) + got.encode())
        out.flush()


class Replica:
    def __init__(self, hashseed, fork):
        self.hashseed, self.fork = hashseed, fork
        e = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([sys.executable, "-m", "svdmon.replica", "fork" if fork else "stay"], env=e, cwd=HERE,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, op, xml):
        b = pickle.dumps((op, xml))
        self.p.stdin.write(struct.pack("<I", len(b)) + b)
        self.p.stdin.flush()
        n = struct.unpack("<I", self.p.stdout.read(4))[0]
        return self.p.stdout.read(n).decode()

    def close(self):
        self.p.stdin.close()
        self.p.wait(10)


if __name__ == "__main__":
    serve(sys.argv[1] == "fork")
