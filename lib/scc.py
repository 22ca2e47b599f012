"""Strongly connected components."""


def cycles(g):
    """The cycles of a graph {node: successors}: strongly connected components with more than one node, or with a loop."""
    index, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for r in g:
        if r in index: continue
        work = [(r, iter(g[r]))]
        index[r] = low[r] = n[0]; n[0] += 1
        st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in g: continue
                if w not in index:
                    index[w] = low[w] = n[0]; n[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(g[w])))
                    break
                if w in on: low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v: break
                    if len(c) > 1 or v in g[v]: out.append(c)
    return out
