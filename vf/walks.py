"""Turn the transitions TLC emitted for a model into walks (call sequences from the initial state)
that together take every transition; used to replay a model's whole state graph into the real code."""
import json
from collections import deque
from .common import CheckError

class Graph:
    def __init__(self): self.ids, self.edges, self.out, self.names = {}, [], [], []
    def node(self, key):
        k = json.dumps(key, sort_keys=True)
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.ids); self.out.append([]); self.names.append(key)
        return i

def emitted(run, module, cfg, timeout=600, heap="6g"):
    """edges printed as "T " <<pre, call, post>> by an ACTION_CONSTRAINT; node 0 is the initial state"""
    r = run.tlc(module, cfg, workers=1, coverage=False, count=False, heap=heap, timeout=timeout)
    if not r["completed"]: raise CheckError("emit %s failed: %s" % (cfg, r["out"][-2000:]))
    g, seen = Graph(), set()
    for line in r["out"].splitlines():
        if line.startswith('"T '):
            if line in seen: continue
            seen.add(line)
            pre, call, post = json.loads(json.loads(line)[2:])
            a = g.node(pre); b = g.node(post)
            g.out[a].append(len(g.edges)); g.edges.append((a, call, b))
    if not g.edges: raise CheckError("no transitions emitted by " + cfg)
    return g

def cover(g, max_len=400):
    """walks = lists of edge indices starting at node 0, covering all edges"""
    par = {0: None}; dq = deque([0])
    while dq:
        u = dq.popleft()
        for e in g.out[u]:
            v = g.edges[e][2]
            if v not in par: par[v] = e; dq.append(v)
    todo = [sorted(o, key=lambda e: g.edges[e][2] != u) for u, o in enumerate(g.out)]  # self loops first
    for t in todo: t.reverse()
    left = sum(len(t) for u, t in enumerate(todo) if u in par)
    def path(u):
        p = []
        while par[u] is not None: p.append(par[u]); u = g.edges[par[u]][0]
        return p[::-1]
    walks, nxt = [], deque(par)
    while left:
        while nxt and not todo[nxt[0]]: nxt.popleft()
        w = path(nxt[0]); u = nxt[0]
        while len(w) < max_len:
            if todo[u]:
                e = todo[u].pop(); left -= 1
            else:   # one step to a neighbour that still has something to do
                e = next((x for x in g.out[u] if todo[g.edges[x][2]]), None)
                if e is None: break
            w.append(e); u = g.edges[e][2]
        walks.append(w)
    return walks
