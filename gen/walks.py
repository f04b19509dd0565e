"""Turns the transitions TLC prints while it explores a model into sessions for the harness:
walks from initial states that together take every transition (or, within a budget, many)."""
import heapq
import json
import random


def parse(output):
    """[(source, calls, target)] of the lines Says prints; () is the source of initial states.
    And calls to make first in a session that starts in an initial state."""
    out, refs = [], {}
    for line in output.splitlines():
        if line.startswith('"{'):
            x = json.loads(json.loads(line))
            out.append((key(x["s"]), x["o"], key(x["t"])))
            if "ref" in x:
                refs[out[-1][2]] = x["ref"]
    # Workers print in any order, and the names of states depend on it.
    return rename(out, refs)


def rename(edges, refs):
    """States named in the order a search from the initial states meets them."""
    after = {}
    for s, o, t in edges:
        after.setdefault(s, []).append((json.dumps(o, sort_keys=True) + json.dumps(refs.get(t)), o, t))
    names, queue, out = {(): ()}, [()], []
    for s in queue:
        for _, o, t in sorted(after.pop(s, []), key=lambda x: x[0]):
            if t not in names:
                # MCDecoder's sessions ask for the attribute set of a state.
                names[t] = (t[0] if isinstance(t[0], str) else "", len(names))
                queue.append(t)
            out.append((names[s], o, names[t]))
    return out, {names[t]: r for t, r in refs.items() if t in names}


def key(x):
    return tuple(key(y) for y in x) if isinstance(x, list) else x


def walks(edges, seed, budget, large=lambda o: 0, cap=0):
    """Sequences of calls: each starts in an initial state and goes on until every transition around
    has been taken.  Stops after `budget` calls, and makes at most about `cap` of those `large` counts.
    Yields (initial state, calls, transitions newly taken)."""
    rng = random.Random(seed)
    out, inits = {}, []
    weight = [large(o) for _, o, _ in edges]
    for i, (s, o, t) in enumerate(edges):
        if s == ():
            inits.append((t, o))
        else:
            out.setdefault(s, []).append(i)
    # The last call towards each state on the best way from an initial state: few large calls, then few.
    way, heap, order, heavy = {}, [], [], {}
    for t, o in inits:
        heapq.heappush(heap, (0, 0, len(heap), t, None, o))
    n = len(heap)
    while heap:
        w, d, _, s, i, o = heapq.heappop(heap)
        if s in way:
            continue
        way[s], heavy[s] = (i, o), w
        order.append(s)
        for j in out.get(s, []):
            if edges[j][2] not in way:
                n += 1
                heapq.heappush(heap, (w + weight[j], d + 1, n, edges[j][2], j, edges[j][1]))
    todo = {s: rng.sample(is_, len(is_)) for s, is_ in out.items() if s in way}
    order = [s for s in order if s in todo]
    rng.shuffle(order)
    taken = set()
    spent = used = 0
    for start in order:
        while todo.get(start):
            if heavy[start] > 0 and used + heavy[start] > cap:
                break
            # the way to start
            path, s = [], start
            while way[s][0] is not None:
                path.append(way[s][0])
                s = edges[way[s][0]][0]
            first, calls = s, list(way[s][1])
            new = 0
            for i in reversed(path):
                calls += edges[i][1]
                if i not in taken:
                    taken.add(i)
                    new += 1
                    todo[edges[i][0]].remove(i)
            s = start
            used += heavy[s]
            while todo.get(s) and len(calls) < 400:
                i = todo[s].pop()
                if weight[i]:
                    if used + weight[i] > cap:
                        continue
                    used += weight[i]
                if alters(edges[i]):
                    # Alterations do not change what was encoded: many in a row, and then the end.
                    more = [i] + [j for j in todo[s] if alters(edges[j])][:60]
                    rest = [j for j in todo[s] if not alters(edges[j])]
                    if rest:
                        # first everything else
                        todo[s].insert(0, i)
                        i = rest[-1]
                        todo[s].remove(i)
                    else:
                        for j in more:
                            calls += edges[j][1]
                            taken.add(j)
                            new += 1
                        todo[s] = [j for j in todo[s] if j not in set(more)]
                        break
                calls += edges[i][1]
                taken.add(i)
                new += 1
                s = edges[i][2]
            yield first, calls, new
            spent += len(calls)
            if spent >= budget:
                return


def alters(edge):
    return any("flips" in o for o in edge[1])
