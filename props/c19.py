from kemvc import dhkem as d
def run(c):
    W = d.DW()
    c.jobs([d.job_wrap(W, g) for g in d.GROUPS] + [d.job_erase(W, n) for n in d.ERASE] + [d.job_derived(W)])
    return d.hunter(W, '_wraps')
