from kemvc import dhkem as d
def run(c):
    W = d.DW()
    c.jobs([d.job_kem(W, g) for g in d.GROUPS])
    return d.hunter(W, '_oracle')
