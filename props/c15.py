from kemvc import xwing as x
K = ['xdec', 'xgenenc', 'xenc', 'xgen', 'xpk', 'xgen2', 'xos', 'xos2']
def run(c):
    ws = x.worlds()
    c.jobs([x.job_conf(W, k) for W in ws for k in K if W.features is None or k not in ('xos', 'xos2')])
    return x.hunter(ws, K)
