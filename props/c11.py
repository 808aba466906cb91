from kemvc import mlkem as m
def run(c):
    W = m.World()
    m.standard_contracts(W)
    c.jobs([m.job_conf(W, k, N) for k in ['rkg', 'renc', 'rkgenc', 'rkgdec'] for N in (1024, 768, 512)])
    return m.hunter(W, ['rkg', 'renc', 'rkgenc', 'rkgdec'])
