"""Serve the extension module over a line protocol.

argv[1] is the shared object.  A request is one line
  <function> <9 lattice> <cartesian 0|1> <tol> <atol> <n> (<hex species> x y z)*n
and the answer is one line, see `Outcome::parse` in src/props/python.rs.
"""
import importlib.machinery
import importlib.util
import sys

loader = importlib.machinery.ExtensionFileLoader("crystsymm", sys.argv[1])
spec = importlib.util.spec_from_loader("crystsymm", loader)
mod = importlib.util.module_from_spec(spec)
loader.exec_module(mod)


def hexs(s):
    return "x" + s.encode("utf-8").hex()


def structure(r):
    lat, sp, fr = r
    if len(lat) != 9 or len(sp) != len(fr) or any(len(x) != 3 for x in fr):
        return "E malformed structure"
    out = ["S"] + [repr(float(x)) for x in lat] + [str(len(sp))]
    for s, x in zip(sp, fr):
        out += [hexs(s)] + [repr(float(v)) for v in x]
    return " ".join(out)


def group(r):
    num, sym, ops = r
    if any(len(a) != 9 or len(b) != 3 for a, b in ops):
        return "E malformed operations"
    out = ["G", str(num), hexs(sym), str(len(ops))]
    for a, b in ops:
        out += [str(int(v)) for v in a] + [repr(float(v)) for v in b]
    return " ".join(out)


def serve(line):
    w = line.split()
    name = w[0]
    lat = [float(x) for x in w[1:10]]
    cart = w[10] == "1"
    tol, atol, n = float(w[11]), float(w[12]), int(w[13])
    sp, co = [], []
    for i in range(n):
        k = 14 + 4 * i
        sp.append(bytes.fromhex(w[k][1:]).decode("utf-8"))
        co.append([float(x) for x in w[k + 1:k + 4]])
    f = getattr(mod, name)
    args = (lat, sp, co, cart, tol) if name == "niggli_reduce" else (lat, sp, co, cart, tol, atol)
    keep = repr(args)
    try:
        r = f(*args)
    except BaseException as e:
        if type(e).__name__ == "PanicException":
            return "R"
        return "E " + repr(e).replace("\n", " ")
    if repr(args) != keep:
        return "E input changed"
    return group(r) if name == "get_space_group_info" else structure(r)


for line in sys.stdin:
    sys.stdout.write(serve(line) + "\n")
    sys.stdout.flush()
