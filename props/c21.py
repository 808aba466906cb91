from kemvc import mlkem as m
# every subset of the optional features, and builds with the release profile's semantics (no overflow checks, no debug assertions)
CFG = [[], ['std'], ['det'], ['zero'], ['std', 'det'], ['std', 'zero'], ['det', 'zero'], ['std', 'det', 'zero'],
       ['std', 'rel'], ['std', 'det', 'zero', 'rel']]
KINDS = ['rkg', 'renc', 'dec', 'dkrt', 'ekrt']
def run(c):
    groups = [(k, N) for k in KINDS for N in (1024, 768, 512)]
    ws = m.worlds(CFG, groups)
    jobs = []
    for W, mine, same in ws:
        if not mine: continue
        m.standard_contracts(W)
        jobs += [m.job_conf(W, k, N, cfg=W.tag) for k, N in mine]
    jobs.sort(key=lambda j: KINDS.index(j[0].split('-')[0]) if j[0].split('-')[0] in KINDS else 9)
    c.jobs(jobs)
    r = c.rec('configurations')
    for W, mine, same in ws:
        if same: r.ok('%s: program identical to the proved one' % W.tag, len(same), 'identity of programs')
    c.extra['configurations'] = [{'features': W.tag, 'proved': len(mine), 'identical_program_proved_as': sorted(set(same.values()))} for W, mine, same in ws]
    def hunt(bad):
        from kemvc import hunt as H
        nat = [W for W, mine, same in ws if mine]
        for W in sorted(nat, key=lambda W: not any(W.tag in b[0] for b in bad)):
            r = H.hunt(W.nat, KINDS, m.SETS, 25)
            if r:
                r['features'] = W.features; r['tag'] = W.dirtag; return r
    return hunt
