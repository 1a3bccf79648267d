"""Delta-debugging of docs (development aid): smallest doc that still satisfies a predicate."""
import copy

from . import spec

_MUST = {"kind", "name", "base_address", "address_offset", "offset", "size_", "usage_", "value_"}


def _edits(doc):
    """Thunks that each make doc smaller in one place and return an undo."""
    for n in list(spec.walk(doc)):
        for a in list(n):
            v = n[a]
            if isinstance(v, list):
                for i in range(len(v)):
                    yield (lambda n=n, a=a, i=i: n[a].pop(i))
            elif a == "kind" or (a in _MUST and n["kind"] != "enumcontainer"):
                continue
            else:
                yield (lambda n=n, a=a: n.pop(a))


def shrink(doc, pred):
    doc = copy.deepcopy(doc)
    again = True
    while again:
        again = False
        count = sum(1 for _ in _edits(doc))
        i = 0
        while i < count:
            trial = copy.deepcopy(doc)
            edit = list(_edits(trial))[i]
            try:
                edit()
                ok = pred(trial)
            except Exception:  # noqa: BLE001
                ok = False
            if ok:
                doc = trial
                again = True
                count = sum(1 for _ in _edits(doc))
            else:
                i += 1
    return doc
