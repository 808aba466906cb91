from kemvc import xwing as x
def run(c):
    W = x.world()
    c.jobs([x.job_erase(W, *e) for e in x.ERASE])
    return x.hunt_erase(W)
