"""Hints for the unit C04, computed from the parser's tables: for every state the symbol that leads to it and the states it is
reached from. They are only hints: the lemma over them (every step of the automaton keeps to them and to the grammar) is checked
by the verifier, by computation over the tables."""


def hints(tv, en):
    ai, ad, ak, inf = tv['action_index'], tv['action_default'], tv['action_check'], tv['action_info']
    gd, lhs, rhs = tv['goto_default'], tv['lhs'], tv['rhs']
    T, S, GI, GO, ACC = en['TERMINAL_COUNT'], en['STATE_COUNT'], en['GOTO_INDEX_OFFSET'], en['GOTO_INFO_OFFSET'], en['ACCEPT_STATE']

    def at(a, i): return a[i] if 0 <= i < len(a) else 0

    def tact(s, t):
        y = at(ai, s) + t
        return -at(ad, s) if y < 0 or at(ak, y) != t else at(inf, y)

    def nact(s, nt):
        y = at(ai, GI + s) + nt
        return at(gd, nt) if y < 0 or at(ak, GO + y) != nt else at(inf, GO + y)
    preds = {s: set() for s in range(S)}
    sym = {0: 0}
    todo = True
    reach = {0}
    while todo:
        todo = False
        for s in list(reach):
            for t in range(-1 if at(ai, s) == -T else 0, T):
                a = tact(s, t)
                new = []
                if a == ACC: continue
                if 0 < a < S: new = [(s, a, t)]
                elif a < 0 and -a - 1 < len(rhs):
                    r = -a - 1
                    front = {s}
                    for _ in range(at(rhs, r)): front = {p for x in front for p in preds[x]}
                    new = [(p, nact(p, lhs[r] - T), lhs[r]) for p in front]
                for p, q, y in new:
                    if not 0 < q < S: continue
                    if p not in preds[q]: preds[q].add(p); todo = True
                    if q not in reach: reach.add(q); sym[q] = y; todo = True

    def tree(f, lo, hi):
        if hi - lo == 1: return f(lo)
        m = (lo + hi) // 2
        return 'if i < %d { %s } else { %s }' % (m, tree(f, lo, m), tree(f, m, hi))
    seq = lambda s: 'seq![%s]' % ', '.join('%dint' % p for p in sorted(preds[s])) if preds[s] else 'Seq::<int>::empty()'
    consts = ''.join('pub open spec fn en_%s() -> int { %d }\n' % (k, v) for k, v in sorted(en.items()) if k.endswith(('_COUNT', '_STATE', '_OFFSET')))
    return consts + ('pub open spec fn insym(i: int) -> int { %s }\npub open spec fn preds(i: int) -> Seq<int> { %s }\n' %
            (tree(lambda s: str(sym.get(s, 0)), 0, S), tree(seq, 0, S)))
