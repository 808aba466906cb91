from kemvc import xwing as x
K = ['xround', 'xgenenc', 'xdec']
def run(c):
    ws = x.worlds()
    c.jobs([x.job_agree(W) for W in ws])
    return x.hunter(ws, K)
