from kemvc import mlkem as m
def run(c):
    W = m.World()
    m.standard_contracts(W)
    c.jobs([m.job_erase(W, N, how) for how in ('init', 'gen') for N in (1024, 768, 512)])
    return m.hunt_erase(W)
