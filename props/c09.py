from kemvc import mlkem as m
def run(c):
    W = m.World()
    m.standard_contracts(W)
    K = ['ekrt', 'dkrt', 'dkek', 'kgref', 'kg', 'kgdec', 'kgenc', 'dkenc', 'dkcdec', 'ekcenc']
    c.jobs([m.job_conf(W, k, N) for k in K for N in (1024, 768, 512)] + [m.job_dkeq(W, N) for N in (1024, 768, 512)])
    return m.hunter(W, K)
