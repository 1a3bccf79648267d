"""The drawing backend of the resolver log. Import before the library.

Pillow is absent here, so the backend refuses to draw although Graphviz is installed. In mode "refuse" that is what a caller
gets; "real" runs Graphviz, and "stub" reads the DOT text with a strict grammar and makes a picture of the labels.
"""
import re
import subprocess
from xml.sax.saxutils import escape

import rustworkx.visualization as _package
import rustworkx.visualization.graphviz as _module

_original = _module.graphviz_draw
mode = ["refuse"]
drawn = []
pictures = {"nodes": 0, "edges": 0}

_ATTRS = r'\[(?:\s*\w+\s*=\s*(?:"(?:[^"\\]|\\.)*"|\w+)\s*[,;]?)*\s*\]'
_LINE = re.compile(rf'\s*(?:(?P<edge>\d+\s*->\s*\d+)|(?P<node>\d+))\s*(?P<attrs>{_ATTRS})?\s*;', re.S)
_LABEL = re.compile(r'label\s*=\s*"((?:[^"\\]|\\.)*)"', re.S)


def _stub(text):
    head = re.match(r'\s*digraph\s*\w*\s*\{', text)
    pos = head.end() if head else 0
    labels, edges = [], 0
    while head:
        m = _LINE.match(text, pos)
        if not m:
            break
        pos = m.end()
        if m["edge"]:
            edges += 1
        else:
            x = _LABEL.search(m["attrs"] or "")
            labels.append(re.sub(r"\\(.)", r"\1", x[1], flags=re.S) if x else "")
    if not head or text[pos:].strip() != "}":
        raise subprocess.CalledProcessError(1, ["dot"], stderr=text[pos:pos + 80])
    pictures["nodes"] += len(labels)
    pictures["edges"] += edges
    texts = "".join(f"<g><text>{escape(x)}</text></g>" for x in labels)
    return ('<?xml version="1.0" encoding="UTF-8" standalone="no"?>\n<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN"\n'
            ' "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">\n<!-- Generated by a stub -->\n'
            f'<svg width="62pt" height="44pt" xmlns="http://www.w3.org/2000/svg">{texts}</svg>\n')


def draw(graph, node_attr_fn=None, edge_attr_fn=None, graph_attr=None, filename=None, image_type=None, method=None):
    if mode[0] == "refuse" or filename is None:
        return _original(graph, node_attr_fn, edge_attr_fn, graph_attr, filename, image_type, method)
    drawn.append(len(graph))
    if mode[0] == "real":
        had, _module.HAS_PILLOW = _module.HAS_PILLOW, True
        try:
            return _original(graph, node_attr_fn, edge_attr_fn, graph_attr, filename, image_type, method)
        finally:
            _module.HAS_PILLOW = had
    svg = _stub(graph.to_dot(node_attr_fn, edge_attr_fn, graph_attr))
    with open(filename, "w", encoding="utf-8") as f:
        f.write(svg)
    return None


_package.graphviz_draw = _module.graphviz_draw = draw
