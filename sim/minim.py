"""Reduces a failing plan: fewer steps, faults, acts, files, project elements."""
import copy
import time


def minimise(plan, res, fails, deadline):
    best = [copy.deepcopy(plan), res]

    def attempt(p):
        if time.time() > deadline:
            return False
        r = fails(p)
        if r is not None:
            best[0], best[1] = p, r
            return True
        return False

    changed = True
    rounds = 0
    while changed and time.time() < deadline and rounds < 6:
        rounds += 1
        changed = False
        # everything after the violating step
        for key in ('steps', 'ops', 'acts', 'rounds'):
            if isinstance(best[0].get(key), list):
                changed |= shrink_list(best, lambda p, key=key: p[key], attempt)
        for key in ('files',):
            d = best[0].get(key)
            if isinstance(d, dict):
                for f in sorted(d):
                    p = copy.deepcopy(best[0])
                    del p[key][f]
                    changed |= attempt(p)
        steps = best[0].get('steps') or []
        for i in range(len(steps)):
            for key in ('faults', 'events', 'askacts', 'ops', 'edits', 'keep', 'ui', 'ans', 'chaos', 'sched', 'short'):
                if i < len(best[0]['steps']) and key in best[0]['steps'][i]:
                    p = copy.deepcopy(best[0])
                    del p['steps'][i][key]
                    if attempt(p):
                        changed = True
                    elif isinstance(best[0]['steps'][i][key], list):
                        changed |= shrink_list(best, lambda p, i=i, key=key: p['steps'][i][key], attempt)
        for spec in range(1):
            for f in sorted(best[0].get('files') or {}):
                sp = best[0]['files'][f]
                if isinstance(sp, dict) and isinstance(sp.get('edits'), list):
                    changed |= shrink_list(best, lambda p, f=f: p['files'][f]['edits'], attempt)
        if best[0].get('progs'):
            p = copy.deepcopy(best[0])
            p['progs'] = {}
            changed |= attempt(p)
        for t in range(len(best[0].get('trees') or [])):
            changed |= shrink_tree(best, t, attempt, deadline)
    return best[0], best[1]


def shrink_list(best, get, attempt):
    changed = False
    try:
        n = len(get(best[0]))
    except (KeyError, IndexError, TypeError):
        return False
    size = max(1, n // 2)
    while size >= 1:
        i = 0
        while True:
            try:
                cur = get(best[0])
            except (KeyError, IndexError, TypeError):
                return changed
            if i >= len(cur):
                break
            p = copy.deepcopy(best[0])
            del get(p)[i:i + size]
            if attempt(p):
                changed = True
            else:
                i += size
        if size == 1:
            break
        size //= 2
    return changed


def shrink_tree(best, t, attempt, deadline):
    """Remove elements of a project tree, biggest first; then shorten texts."""
    changed = False

    def nodes(tree):
        out = []

        def rec(n, path):
            if isinstance(n[1], list):
                for i, c in enumerate(n[1]):
                    out.append((path + (i,), weight(c)))
                    rec(c, path + (i,))
        rec(tree, ())
        return out

    def weight(n):
        if isinstance(n[1], list):
            return 1 + sum(weight(c) for c in n[1])
        return 1

    def at(tree, path):
        n = tree
        for i in path:
            n = n[1][i]
        return n

    progress = True
    tried = set()
    while progress and time.time() < deadline:
        progress = False
        for path, w in sorted(nodes(best[0]['trees'][t]), key=lambda x: (-x[1], x[0])):
            if time.time() > deadline:
                return changed
            node = at(best[0]['trees'][t], path)
            key = repr(node)[:3000]
            if key in tried:
                continue
            tried.add(key)
            p = copy.deepcopy(best[0])
            par = at(p['trees'][t], path[:-1])
            del par[1][path[-1]]
            if attempt(p):
                changed = progress = True
                break
    return changed
