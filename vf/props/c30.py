"""C30: introspection reports the true structure and does not change the model."""
import os
import re
import tempfile
from collections import Counter

from hypothesis import strategies as st

from vf import circ as cc
from vf import zoo as zz
from vf.core import Facet, Prop, close, require

OPS = {"Cat", "Split", "SplitByIndex", "SplitConsecutive", "SplitInterleaved"}


@st.composite
def case(draw):
    if draw(st.integers(0, 3)):
        c = draw(cc.circuit(families=("cat", "real", "count", "pos", "unit", "hist"), root="any", reps=(1, 2), min_vars=1, max_vars=6, maxdepth=5, maxstates=None))
        c["wrap"] = draw(st.integers(0, 4)) == 0
    else:
        c = draw(zz.zoo(maxD=7, classes=(1, 2, 3), families=("cat", "real", "count", "pos"), maxstates=None))
        c["wrap"] = draw(st.booleans())
    c["rows"] = draw(cc.rows(c["vt"], max_rows=2))
    c["f64"] = True
    c["maxdepth"] = draw(st.sampled_from([None, None, 0, 1, 2, 3]))
    c["show"] = [draw(st.booleans()), draw(st.booleans())]
    c["skip"] = draw(st.booleans())
    c["vis"] = draw(st.integers(0, 2)) == 0
    return c


def kids(m):
    """Structural children, each reference listed; the concatenation below a single input is looked through."""
    from spflow.modules.leaves.leaf import LeafModule
    from spflow.modules.module import Module

    if isinstance(m, LeafModule):
        return []
    sub = m._modules
    if "root_node" in sub:
        return [sub["root_node"]]
    if "module" in sub and isinstance(sub["module"], Module):
        return [sub["module"]]
    i = sub.get("inputs")
    if i is None:
        return []
    if isinstance(i, Module):
        if type(i).__name__ == "Cat":
            return list(i._modules["inputs"])
        return [i]
    return list(i)


def graph(root):
    """(unique nodes in discovery order, list of (parent, child) references, depth)."""
    nodes, edges, todo = {}, [], [root]
    while todo:
        m = todo.pop()
        if id(m) in nodes:
            continue
        nodes[id(m)] = m
        for k in kids(m):
            edges.append((m, k))
            todo.append(k)
    memo = {}

    def depth(m):
        if id(m) not in memo:
            memo[id(m)] = 1 + max((depth(k) for k in kids(m)), default=0)
        return memo[id(m)]

    return list(nodes.values()), edges, depth(root)


def scope_text(m):
    q = sorted(m.scope.query)
    if not q:
        return None
    return f"{q[0]}-{q[-1]}" if q[-1] - q[0] + 1 == len(q) else "{" + ", ".join(map(str, q)) + "}"


def check(c, rec):
    import torch
    from spflow.modules.module import Module
    from spflow.utils.module_display import module_to_str
    from spflow.utils.structure_stats import get_structure_stats, structure_stats_to_str

    cc.set_dtype(c)
    b = zz.build(c)[0] if "zoo" in c else cc.build(c).module
    m = b
    if c["wrap"]:
        from spflow.modules.wrapper.image_wrapper import ImageWrapper

        m = ImageWrapper(b, num_channel=1, height=1, width=c["n"])
    T = cc.to_torch(cc.to_np(c["rows"]))
    with torch.no_grad():
        before = cc.to_np(b.log_likelihood(T.clone()))
    state = {k: v.clone() for k, v in m.state_dict().items()}
    nodes, edges, depth = graph(m)
    indeg = Counter(id(k) for _, k in edges)
    shared = sum(v > 1 for v in indeg.values())
    rec.tag(*(zz.tags(c) if "zoo" in c else cc.spec_tags(c["spec"])), "shared" if shared else "tree", *(["wrapped"] if c["wrap"] else []))
    rec.nt(len(nodes) > 3)
    rec.n(len(nodes))

    s = get_structure_stats(m)
    require(s.num_nodes_total == len(nodes), f"{s.num_nodes_total} nodes counted, the circuit has {len(nodes)}")
    require(s.num_edges_total == len(edges), f"{s.num_edges_total} edges counted, the circuit has {len(edges)}")
    require(s.max_depth == depth, f"depth {s.max_depth}, expected {depth}")
    require(dict(s.node_type_counts) == dict(Counter(type(x).__name__ for x in nodes)), f"node types {s.node_type_counts}")
    params = {id(p): p for p in m.parameters()}
    require(s.num_parameters_total == sum(p.numel() for p in params.values()), f"{s.num_parameters_total} parameters counted, the model has "
            f"{sum(p.numel() for p in params.values())}")
    own = Counter(n.rsplit(".", 1)[-1] for n, _ in m.named_parameters())
    require(dict(s.parameter_type_counts) == dict(own), f"parameter types {s.parameter_type_counts}, expected {dict(own)}")
    require(s.num_shared_nodes == shared and s.is_dag == (shared > 0), f"{s.num_shared_nodes} shared nodes, expected {shared}")
    sizes = [len(x.scope.query) for x in nodes]
    require((s.scope_size_min, s.scope_size_max) == (min(sizes), max(sizes)), "scope sizes")
    close(s.scope_size_mean, sum(sizes) / len(sizes), "mean scope size", rtol=1e-9, atol=1e-9)
    require(dict(s.scope_size_histogram) == dict(Counter(sizes)), "scope histogram")
    text = structure_stats_to_str(s, max_node_types=100)
    for name, v in (("nodes", len(nodes)), ("edges", len(edges)), ("parameters", s.num_parameters_total), ("max_depth", depth), ("shared_nodes", shared)):
        require(f"- {name}: {v}" in text.split("\n"), f"summary does not report {name}: {v}")
    for t, v in Counter(type(x).__name__ for x in nodes).items():
        require(re.search(rf"\b{t}={v}\b", text) is not None, f"summary does not report {t}={v}")
    require(s == get_structure_stats(m), "statistics differ between two calls")

    # ---- tree view: one line per path from the root
    want, stack, total = [], [(m, 0)], 0
    while stack:
        x, d = stack.pop()
        total += 1
        if total > 400:
            break
        want.append((d, type(x).__name__, x.out_shape.features, x.out_shape.channels, scope_text(x) if c["show"][1] else None,
                     str(tuple(x.weights_shape)) if c["show"][0] and hasattr(x, "weights_shape") else None))
        if c["maxdepth"] is None or d < c["maxdepth"]:
            stack += [(k, d + 1) for k in reversed(kids(x))]
    if total <= 400:
        out = module_to_str(m, format="tree", max_depth=c["maxdepth"], show_params=c["show"][0], show_scope=c["show"][1])
        got = []
        for line in out.split("\n"):
            g = re.match(r"^([│├└─ ]*)(\w+) \[D=(\d+), C=(\d+)(?:, R=\d+)?\](?: \[weights: (\(.*?\))\])?(?: → scope: (.*))?$", line)
            require(g is not None, f"unreadable line in tree view: {line!r}")
            got.append((len(g[1]) // 3, g[2], int(g[3]), int(g[4]), g[6], g[5]))
        require(got == want, f"tree view shows {[x for x in got if x not in want][:3]} ({len(got)} lines), expected {[x for x in want if x not in got][:3]} ({len(want)} lines)")
        if all(c["show"]):
            require(m.to_str(max_depth=c["maxdepth"]) == out, "to_str() differs from module_to_str()")
    rep = module_to_str(m, format="pytorch")
    for t in {type(x).__name__ for x in m.modules() if isinstance(x, Module)}:
        require(t in rep, f"pytorch view does not mention {t}")

    # ---- graph rendering
    if c["vis"]:
        check_vis(c, m)

    with torch.no_grad():
        close(cc.to_np(b.log_likelihood(T.clone())), before, "log-likelihood after introspection", rtol=1e-12, atol=1e-12)
    after = m.state_dict()
    require(list(after) == list(state) and all(torch.equal(torch.nan_to_num(after[k]), torch.nan_to_num(state[k])) for k in state), "introspection changed the parameters")


def check_vis(c, m):
    """Nodes and edges of the rendered graph; skipped operations are looked through."""
    from spflow.modules.leaves.leaf import LeafModule
    from spflow.modules.module import Module
    from spflow.utils.visualization import visualize

    def raw(x):
        if isinstance(x, LeafModule):
            return []
        sub = x._modules
        for key in ("root_node", "module"):
            if isinstance(sub.get(key), Module):
                return [sub[key]]
        i = sub.get("inputs")
        return [] if i is None else [i] if isinstance(i, Module) else list(i)

    def look(x):
        """Visible children of x."""
        out = []
        for k in raw(x):
            out += look(k) if c["skip"] and type(k).__name__ in OPS else [k]
        return out

    nodes, edges, todo = {}, Counter(), [m]
    while todo:
        x = todo.pop()
        if id(x) in nodes:
            continue
        nodes[id(x)] = x
        for k in look(x):
            edges[(id(k), id(x))] += 1
            todo.append(k)
    with tempfile.TemporaryDirectory() as d:
        visualize(m, os.path.join(d, "g"), format="canon", skip_ops=c["skip"], show_scope=c["show"][0], show_params=c["show"][1])
        text = open(os.path.join(d, "g.canon")).read()
    got = {}
    for g in re.finditer(r"^\t(\d+)\s*\[.*?label=<(.*?)>\];", text, re.S | re.M):
        got[int(g[1])] = re.search(r"<B>(\w+)</B>", g[2])[1]
    require(got == {k: type(x).__name__ for k, x in nodes.items()}, f"graph has nodes {sorted(got.values())}, expected {sorted(type(x).__name__ for x in nodes.values())}")
    e = Counter((int(a), int(b)) for a, b in re.findall(r"^\t(\d+) -> (\d+)", text, re.M))
    name = {k: type(x).__name__ for k, x in nodes.items()}
    show = lambda q: [(name.get(a), name.get(b), v) for (a, b), v in q.items()][:4]  # noqa: E731
    require(e == edges, f"graph edges {show(e - edges)} not expected, {show(edges - e)} missing")


PROP = Prop("C30", [
    Facet("structure", case(), check, quick=700, thorough=15000, rule="at least four distinct modules"),
])
