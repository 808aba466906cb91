from kemvc import mlkem as m
def run(c):
    W = m.World()
    m.standard_contracts(W)
    c.jobs([m.job_conf(W, 'kg', N) for N in m.SETS] + [m.job_conf(W, 'kgref', N) for N in m.SETS])
    return m.hunter(W, ['kg', 'kgref'])
