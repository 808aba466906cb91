from kemvc import mlkem as m, hunt as H
KINDS = ['kg', 'kgref', 'enc', 'dec', 'ekrt', 'dkrt', 'dkek', 'rkg', 'renc', 'dkenc', 'dkcdec', 'ekcenc', 'rkgdec', 'rkgenc']
def run(c):
    W = m.World()
    m.standard_contracts(W)
    c.jobs([m.job_safe(W, k, N) for k in KINDS for N in (1024, 768, 512)] + [m.job_safe_obj(W, N) for N in (1024, 768, 512)])
    return lambda bad: H.hunt(W.nat, KINDS, m.SETS, 90, crash_only=True)
