from kemvc import mlkem as m, cthunt
def run(c):
    W = m.World()
    m.standard_contracts(W)
    c.jobs([m.job_ct(W, N) for N in (1024, 768, 512)])
    return cthunt.hunt
