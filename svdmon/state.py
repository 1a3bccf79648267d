"""Object-graph snapshots: what is reachable from a value, down to identities and parent links."""
import enum

ATOMS = (int, float, str, bytes, bool, type(None), enum.Enum, type)


def reach(root):
    """All objects reachable from root through attributes and containers, in a fixed order."""
    out, seen, todo = [], {}, [root]
    while todo:
        o = todo.pop()
        if isinstance(o, ATOMS) or callable(o) or id(o) in seen:
            continue
        seen[id(o)] = len(out)
        out.append(o)
        todo += reversed(list(_parts(o)))
    return out, seen


def _parts(o):
    if isinstance(o, (list, tuple)):
        return o
    if isinstance(o, (set, frozenset)):
        return sorted(o, key=repr)
    if isinstance(o, dict):
        return [x for kv in o.items() for x in kv]
    return list(getattr(o, "__dict__", {}).values())


def snapshot(root):
    """Comparable picture of everything reachable, aliasing included."""
    objs, num = reach(root)

    def ref(v):
        return repr(v) if isinstance(v, ATOMS) or callable(v) else num[id(v)]
    pic = []
    for o in objs:
        if isinstance(o, (list, tuple, set, frozenset)):
            pic.append((type(o).__name__, id(o), [ref(x) for x in _parts(o)]))
        elif isinstance(o, dict):
            pic.append(("dict", id(o), [(ref(k), ref(v)) for k, v in o.items()]))
        else:
            pic.append((type(o).__name__, id(o), [(k, ref(v)) for k, v in getattr(o, "__dict__", {}).items()]))
    return objs, pic  # objs keeps the identities alive


def mutable(root):
    """id -> object of the reachable objects that can be modified."""
    return {id(o): o for o in reach(root)[0] if not isinstance(o, (tuple, frozenset))}
