from kemvc import mlkem as m, noise
K = ['kgdec', 'dec', 'kgenc', 'enc', 'kg']
def run(c):
    W = m.World()
    m.standard_contracts(W)
    c.jobs([m.job_conf(W, k, N) for k in ('dec', 'kgenc', 'enc', 'kgdec', 'kg') for N in (1024, 768, 512)] + [noise.job_lemma(N) for N in (1024, 768, 512)])
    return m.hunter(W, K)
