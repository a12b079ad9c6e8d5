"""Breadth-first search over operation histories: the model is explored with state
deduplication; every (state, operation) edge is executed on fresh real objects by
replaying the shortest history that reaches the state."""


def bfs(rec, model, ops, step, real, act, check, canon, depth, label=None):
    """model: initial model state; ops(m) -> enabled operations; step(m, op) -> (m', expected);
    real() -> fresh real system; act(r, op) -> observed; check(r, m', observed, expected)
    -> None or reason; canon(m) -> hashable."""
    seen = {canon(model)}
    rec.state((label, canon(model)))
    level = [(model, ())]
    for d in range(depth):
        nxt = []
        for m, hist in level:
            for op in ops(m):
                m2, want = step(m, op)
                r = real()
                for o in hist:
                    act(r, o)
                got = act(r, op)
                rec.step(len(hist) + 1)
                why = check(r, m2, got, want)
                if why:
                    rec.fail("%s: after %r: %s" % (label, list(hist) + [op], why))
                    if len(rec.fails) > 50:
                        return
                    continue
                k = canon(m2)
                if k not in seen:
                    seen.add(k)
                    rec.state((label, k))
                    nxt.append((m2, hist + (op,)))
        level = nxt
