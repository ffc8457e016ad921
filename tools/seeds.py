G = "from medil.graph import *"
EA = "from medil.ecc_algorithms import *\nfrom medil import ecc_algorithms as EA"
GEN = "from medil.sample import biadj, mcm\nfrom medil.models import GaussianMCM"
MOD = "from medil.models import *\nfrom medil import models as M"
IT = "from medil import independence_testing as T"
EV = "from medil import evaluate as E"
NET = "import torch\nfrom medil import vae as V, models as M"
COVER = """
import itertools
def chk(A):
    A=A.astype(bool); c=np.asarray(find_clique_min_cover(A.astype(int))).astype(bool); r=(c.T.astype(int)@c.astype(int))>0
    assert (r==A).all() and c.any(1).all()
for n in (4,5):
    for bits in itertools.product([0,1],repeat=n*(n-1)//2):
        A=np.eye(n,dtype=int); A[np.triu_indices(n,1)]=bits; chk(A|A.T)
r=np.random.default_rng(0)
for _ in range(600):
    n=int(r.integers(6,11)); A=np.triu(r.random((n,n))<r.uniform(.3,.95),1); chk(A|A.T|np.eye(n,dtype=bool))
"""
MINI = """
import itertools, networkx as nx
def opt(A):
    n=len(A); es=[(i,j) for i in range(n) for j in range(i+1,n) if A[i,j]]; iso=int((A.sum(0)==1).sum())
    if not es: return iso
    qs=[set(q) for q in nx.find_cliques(nx.from_numpy_array(A-np.eye(n,dtype=int))) if len(q)>1]; ss=[frozenset(e for e in es if e[0] in q and e[1] in q) for q in qs]
    for k in range(1,len(ss)+1):
        for s in itertools.combinations(ss,k):
            if len(frozenset().union(*s))==len(es): return k+iso
for n in (4,5):
    for bits in itertools.product([0,1],repeat=n*(n-1)//2):
        A=np.eye(n,dtype=int); A[np.triu_indices(n,1)]=bits; A=A|A.T
        assert len(find_clique_min_cover(A.copy()))==opt(A)
r=np.random.default_rng(0)
for _ in range(700):
    A=np.eye(6,dtype=int); A[np.triu_indices(6,1)]=r.random(15)<r.uniform(.3,.95); A=A|A.T
    assert len(find_clique_min_cover(A.copy()))==opt(A)
"""
MINI7 = MINI.replace("for _ in range(700):", "for _ in range(250):").replace("eye(6,dtype", "eye(7,dtype").replace("triu_indices(6,1)", "triu_indices(7,1)").replace("random(15)", "random(21)").replace(".3,.95", ".3,.7")
CLQ = """
import itertools, networkx as nx
r=np.random.default_rng(0)
for t in range(800):
    n=int(r.integers(1,9)); A=np.triu(r.random((n,n))<r.random(),1); A=A|A.T
    w=sorted(sorted(q) for q in nx.find_cliques(nx.from_numpy_array(A.astype(int))))
    if t%2: np.fill_diagonal(A,True)
    assert sorted(sorted(map(int,q)) for q in max_cliques(A))==w
"""
PC = """
import networkx as nx
r=np.random.default_rng(0)
for t in range(800):
    n=int(r.integers(1,9)); A=np.triu(r.random((n,n))<r.random(),1); A=A|A.T
    al=max(len(q) for q in nx.find_cliques(nx.from_numpy_array((~A&~np.eye(n,dtype=bool)).astype(int))))
    if t%2: np.fill_diagonal(A,True)
    b=find_heuristic_1pc(A.copy()); U=b.T@b
    assert len(b)==al and b[:,b.sum(0)==1].any(1).all() and b.any(0).all() and not (A&~U&~np.eye(n,dtype=bool)).any()
"""
PC5 = """
r=np.random.default_rng(0)
for t in range(800):
    l=int(r.integers(1,6)); m=l+int(r.integers(0,6)); b=np.zeros((l,m),bool); b[:,:l]=np.eye(l)
    for v in range(l,m):
        b[r.random(l)<.5,v]=True
        if not b[:,v].any(): b[0,v]=True
    b=b[:,r.permutation(m)]; g=find_heuristic_1pc(b.T@b)
    assert sorted(map(tuple,g))==sorted(map(tuple,b))
"""
B6 = """
for s in range(300):
    for m,l,d in ((6,3,.25),(7,4,.5),(9,3,.9),(5,5,.2),(6,2,1.0),(5,1,.3),(8,4,.73)):
        b=biadj(m,density=d,num_latent=l,rng=np.random.default_rng(s))
        assert b.shape==(l,m) and b.dtype==bool and b[:,b.sum(0)==1].any(1).all() and b.any(0).all() and b.sum()==m+round(d*(m-l)*(l-1))
    assert 1<=len(biadj(4,rng=np.random.default_rng(s)))<=3
"""
SEEDS = [
 ("C01a", "C01", "medil/graph.py", [("                open_nbrhood[vert] = 0\n", "")], "a graph on which rule 1 removes a vertex before rule 2 applies to a neighbourhood counted too low", "the edge counts of neighbourhoods are decremented once too often, so non-cliques are added to the cover", EA, COVER),
 ("C01b", "C01", "medil/graph.py", [("            self.common_neighbors[:, isolated_verts] = 0\n", "")], "a graph on which a vertex is removed and one of its former neighbourhoods is chosen later", "removed vertices stay in common neighbourhoods", EA, COVER),
 ("C01c", "C01", "medil/ecc_algorithms.py", [("iso_vert_idx = np.flatnonzero(cover.sum(0) == 0)", "iso_vert_idx = np.flatnonzero(cover.sum(0) == 0)[:1]")], "a graph with two or more isolated vertices and an edge", "only the first isolated vertex gets a clique", EA, COVER),
 ("C01d", "C01", "medil/graph.py", [("            prisoners[vert] = False  # a vert isn't its own prisoner\n", "")], "a graph on which rule 3 applies", "a vertex counts as its own prisoner, so rule 3 removes vertices whose edges are then not reconstructed", EA, COVER),
 ("C02a", "C02", "medil/graph.py", [("            self.k_num_cliques -= 1\n", "")], "a graph on which rule 2 applies while another branch is needed", "rule 2 does not count its clique, so the search accepts larger covers", EA, MINI),
 ("C02b", "C02", "medil/graph.py", [("        if max_intersect_num", "        if max_intersect_num")] if False else [("            clique_idx = clique_idxs[-1]", "            clique_idx = clique_idxs[0]"), ("        clique_idxs = np.where(score[self.extant_edges_idx] == 0)[0]", "        clique_idxs = np.where(score[self.extant_edges_idx] <= 0)[0]"), ("        score = self.n_choose_2(self.common_neighbors.sum(1)) - self.nbrhood_edge_counts\n", "        score = self.n_choose_2(self.common_neighbors.sum(1) - 1) - self.nbrhood_edge_counts\n")], "a graph with an edge in two maximal cliques whose union misses few edges", "rule 2 applies to neighbourhoods that are not cliques", EA, MINI),
 ("C03a", "C03", "medil/ecc_algorithms.py", [("                        ext_u = cand - adj[u]\n", "                        ext_u = cand - adj[u] - {u}\n")], "a graph in which the pivot of an inner level belongs to a maximal clique not seen otherwise", "maximal cliques through an inner pivot are missed", EA, CLQ),
 ("C03b", "C03", "medil/ecc_algorithms.py", [("                if not subg_q:\n", "                if not (cand & adj_q):\n")], "a graph in which a clique cannot be extended by candidates but by vertices already handled", "cliques that are not maximal are yielded", EA, CLQ),
 ("C03c", "C03", "medil/ecc_algorithms.py", [("        u: {v for v in np.nonzero(nbrhood[u])[0] if v != u} for u", "        u: {v for v in np.nonzero(nbrhood[u])[0] if v != u and nbrhood[v, v] == nbrhood[u, u]} for u")], "a graph whose diagonal is mixed", "edges between vertices with different diagonal entries are ignored", EA, CLQ.replace("if t%2: np.fill_diagonal(A,True)", "A[0,0]=True")),
 ("C04a", "C04", "medil/ecc_algorithms.py", [("        if len(indep_set) > len(max_indep_set):", "        if len(indep_set) > len(max_indep_set) + 1:")], "the first maximal independent set found is exactly one vertex short of the largest", "too few latents", EA, PC),
 ("C04b", "C04", "medil/ecc_algorithms.py", [("            the_cover[np.argmax(the_cover[:, u]), v] = True", "            the_cover[np.argmax(the_cover[:, v]), u] = True")], "an edge between non-neighbours' cliques", "edges outside the pure children's cliques are given to the wrong latent", EA, PC),
 ("C05a", "C05", "medil/ecc_algorithms.py", [("        nbrs = np.flatnonzero(graph[node])\n", "        nbrs = np.flatnonzero(graph[node] & ~the_cover.all(0))\n")], "a measurement with every latent as parent, found before the last latent", "a measurement that has all other latents already is not attached", EA, "for l,m in ((1,2),(2,3)):\n    b=np.ones((l,m),bool); b[:,:l]=np.eye(l)\n    g=find_heuristic_1pc(b.T@b); assert sorted(map(tuple,g))==sorted(map(tuple,b))\n" + PC5) if False else
 ("C05a", "C05", "medil/ecc_algorithms.py", [("        the_cover[idx, nbrs] = True\n", "        the_cover[idx, nbrs[: num_meas - num_latents]] = True\n")], "a latent whose pure child is adjacent to itself and to every non-pure measurement (diagonal set), so that it has more neighbours than there are other measurements", "the last child of a latent adjacent to everything is dropped", EA, PC5),
 ("C06a", "C06", "medil/sample.py", [("num_edges = np.round(max_num_edges * density).astype(int)", "num_edges = int(max_num_edges * density)")], "a density whose number of edges has a fractional part above one half", "the number of edges is truncated instead of rounded", GEN, B6),
 ("C06b", "C06", "medil/sample.py", [("            num_latent = rng.integers(1, num_meas)", "            num_latent = rng.integers(1, num_meas, endpoint=True)")], "the largest draw", "as many latents as measurements can be drawn", GEN, B6),
 ("C06c", "C06", "medil/sample.py", [("        biadj[1:][:, num_latent:] = edges", "        biadj[:-1][:, num_latent:] = edges")], "a measurement that gets no extra edge", "measurements lose their guaranteed parent", GEN, B6),
 ("C07a", "C07", "medil/sample.py", [("        num_edges = np.round(density * max_edges).astype(int)", "        num_edges = np.ceil(density * max_edges).astype(int)")], "a density whose number of edges has a fractional part below one half", "the number of edges is rounded up", GEN, "for s in range(60):\n    for m,d in ((4,.2),(5,.33),(6,.5),(7,.13),(3,1.0)):\n        b=biadj(m,density=d,one_pure_child=False,rng=np.random.default_rng(s)); assert np.triu((b.T@b),1).sum()==np.round(d*(m*(m-1)//2))"),
 ("C07b", "C07", "medil/sample.py", [("        if num_latent != 0:", "        if num_latent > num_meas:")], "a number of latents up to the number of measurements", "a number of latents is accepted and ignored", GEN, "ok=False\ntry: biadj(4,one_pure_child=False,num_latent=2,rng=np.random.default_rng(0))\nexcept ValueError: ok=True\nassert ok"),
 ("C08a", "C08", "medil/sample.py", [("        params.error_variances = (rng.random(num_meas) * 1.5) + 0.5", "        params.error_variances = rng.random(num_meas) * 2")], "a small draw", "error variances can be below one half", GEN, "for s in range(300):\n    p=mcm(rng=np.random.default_rng(s),num_meas=5).parameters; assert (p.error_variances>=.5).all() and (p.error_variances<2).all()"),
 ("C08b", "C08", "medil/sample.py", [("        weights = (rng.random(num_edges) * 1.5) + 0.5\n        weights[rng.choice((True, False), num_edges)] *= -1", "        weights = (rng.random(num_edges) * 1.5) + 0.5\n        weights *= rng.choice((-1, 1), num_edges, replace=True) if num_edges < 6 else np.sign(rng.integers(-9, 10, num_edges))")], "a structure with six or more edges and a draw of sign zero", "weights of edges can be zero", GEN, "for s in range(300):\n    m=mcm(rng=np.random.default_rng(s),num_meas=7); assert ((m.parameters.biadj_weights!=0)==m.biadj).all()"),
 ("C09a", "C09", "medil/sample.py", [("        params.error_means[rng.choice((True, False), num_meas)] *= -1", "        params.error_means[np.random.choice((True, False), num_meas)] *= -1")], "two calls with equal generators and another use of the global state in between", "signs of error means come from the global random state", GEN, "a=mcm(rng=np.random.default_rng(1),num_meas=6).parameters.error_means\nfor _ in range(5):\n    b=mcm(rng=np.random.default_rng(1),num_meas=6).parameters.error_means; assert (a==b).all()"),
 ("C09b", "C09", "medil/models.py", [("        latent_sample = self.rng.multivariate_normal(\n            np.zeros(num_latent)", "        latent_sample = self.rng.spawn(1)[0].multivariate_normal(\n            np.zeros(num_latent)")], "two generators in equal states with different seed histories", "latents come from a spawned generator, which depends on how often the generator spawned before, not on its state", GEN, "def f(hist):\n    g=np.random.default_rng(3)\n    if hist: g.spawn(2)\n    m=GaussianMCM(biadj=np.eye(2,dtype=bool),rng=g); p=m.parameters; p.biadj_weights=np.eye(2); p.error_means=np.zeros(2); p.error_variances=np.ones(2); return m.sample(3)\nassert (f(0)==f(1)).all()"),
 ("C10a", "C10", "medil/models.py", [("            np.diagflat(self.parameters.error_variances),", "            np.diagflat(self.parameters.error_variances**2),")], "error variances other than one", "errors have the squared variances", GEN, "m=GaussianMCM(biadj=np.eye(2,dtype=bool),rng=np.random.default_rng(0)); p=m.parameters; p.biadj_weights=np.zeros((2,2)); p.error_means=np.zeros(2); p.error_variances=np.array([.25,4.])\nd=m.sample(50000); assert np.allclose(d.var(0),[.25,4],rtol=.1)"),
 ("C10b", "C10", "medil/models.py", [("            np.zeros(num_latent), np.eye(num_latent), sample_size\n", "            np.zeros(num_latent), np.full((num_latent, num_latent), 0.0) + np.diagflat(np.arange(num_latent) < 4), sample_size\n")], "five or more latents", "only the first four latents vary", GEN, "m=GaussianMCM(biadj=np.eye(6,dtype=bool),rng=np.random.default_rng(0)); p=m.parameters; p.biadj_weights=np.eye(6); p.error_means=np.zeros(6); p.error_variances=np.zeros(6)+.01\nd=m.sample(5000); assert (d.var(0)>.5).all()"),
 ("C11a", "C11", "medil/models.py", [("        self.parameters.error_variances = result.x[num_weights:]", "        self.parameters.error_variances = result.x[num_weights:].clip(min=0)")], "a dataset whose best error variance is negative", "fitted error variances are not the minimizer", GEN, "neg=0\nfor s in range(60):\n    X=np.random.default_rng(s).normal(size=(6,3))@np.random.default_rng(s+1).normal(size=(3,3)); m=GaussianMCM(biadj=np.ones((1,3),bool)).fit(X); W=m.parameters.biadj_weights; v=m.parameters.error_variances; C=np.cov(X,rowvar=False)\n    g=-2*np.diag(C-W.T@W-np.diag(v)); assert np.abs(g).max()<1e-2*(1+np.abs(C).max()**1.5)"),
 ("C11b", "C11", "medil/models.py", [("        cov = np.cov(self.dataset, rowvar=False)\n", "        cov = np.cov(self.dataset, rowvar=False, bias=True)\n")], "a small dataset", "the population covariance is fitted instead of the sample covariance", GEN, "X=np.random.default_rng(0).normal(size=(5,2)); m=GaussianMCM(biadj=np.eye(2,dtype=bool)).fit(X); W=m.parameters.biadj_weights; v=m.parameters.error_variances; C=np.cov(X,rowvar=False)\nassert np.allclose(np.diag(W.T@W)+v,np.diag(C),rtol=1e-3)"),
 ("C12a", "C12", "medil/models.py", [("        inner_numerator = inner_numerator.clip(min=0.00001)\n", "")], "two perfectly correlated variables whose computed correlation exceeds one by rounding, or is one", "perfectly correlated variables can be disjoint", GEN, "hit=0\nfor s in range(200):\n    x=np.random.default_rng(s).normal(size=7); X=np.stack([x,3*x+1,-x*.7],1); m=GaussianMCM(); m.dataset=X; m._estimate_udg(); assert m.udg[0,1] and m.udg[0,2] and m.udg[1,2]"),
 ("C12b", "C12", "medil/models.py", [("        udg_triu = np.log(inner_numerator) < (-np.log(samp_size) / samp_size)", "        udg_triu = np.log(inner_numerator) < (-np.log(samp_size) / (samp_size - 1))")], "a pair whose correlation lies between two close thresholds", "the penalty is spread over n - 1 observations", GEN, "bad=0\nfor s in range(3000):\n    X=np.random.default_rng(s).normal(size=(6,4)); m=GaussianMCM(); m.dataset=X; m._estimate_udg(); r=np.corrcoef(X,rowvar=False); w=6*np.log(np.maximum(1-r**2,1e-5))+np.log(6)<0; np.fill_diagonal(w,False); bad+=(w!=m.udg).any()\nassert bad==0"),
 ("C13a", "C13", "medil/independence_testing.py", [("        zipped = zip(idxs, jdxs)", "        zipped = zip(jdxs, idxs)")], "the asymmetric xi test", "the test is given the higher-numbered variable first", IT, "X=np.random.default_rng(0).normal(size=(20,4)); X[:,1]=X[:,0]**2\nu,p=T.estimate_UDG(X,'xicor')\nassert abs(p[0,1]-T.xicorr(X[:,0],X[:,1])[1])<1e-12 and abs(p[2,3]-T.xicorr(X[:,2],X[:,3])[1])<1e-12"),
 ("C13b", "C13", "medil/independence_testing.py", [("                p.imap(test, sample_iter, 100), float", "                p.imap_unordered(test, sample_iter, 20), float")], "more than 20 pairs of variables and workers finishing out of order", "p-values can end up at other pairs", IT, "import time\ndef slow(a, b, k=[0]):\n    i=int(a[0]); time.sleep(.3 if i==0 else 0); return T.XiCorrResult(0., i*100+b[0])\nT.xicorr=slow; m=12\nX=np.tile(np.arange(m)*1.,(3,1))\nfor _ in range(3):\n    u,p=T.estimate_UDG(X,'xicor'); assert all(p[i,j]==i*100+j for i in range(m) for j in range(i+1,m))"),
 ("C13c", "C13", "medil/independence_testing.py", [("        udg = test_val >= crit_val", "        udg = test_val >= crit_val * (1 if significance_level <= 0.05 else significance_level)")], "a significance level above the default", "the critical value is scaled by larger significance levels", IT, "import scipy.stats\nfor s in range(60):\n    X=np.random.default_rng(s).normal(size=(12,4)); c,d=T.dcov(X); w=12*c/np.outer(d,d)>=scipy.stats.chi2(1).ppf(1-.3); np.fill_diagonal(w,False); assert (T.estimate_UDG(X,'dcov_fast',.3)[0]==w).all()"),
 ("C14a", "C14", "medil/independence_testing.py", [("        d_bar = d.mean()\n", "        d_bar = d.mean() if n > 3 else d.sum() / max(1, n * (n - 1))\n")], "three or fewer observations", "the mean distance of small samples leaves out the diagonal", IT, "X=np.random.default_rng(0).normal(size=(3,2)); c,d=T.dcov(X); assert abs(d[0]-np.abs(X[:,0][:,None]-X[:,0]).mean())<1e-12"),
 ("C14b", "C14", "medil/independence_testing.py", [('d = squareform(pdist(samples[:, feat_idx].reshape(-1, 1), "cityblock"))', 'd = squareform(pdist(samples[:, feat_idx].reshape(-1, 1).astype(np.float32), "cityblock"))')], "a variable with a large offset", "distances are taken in single precision, so a shift changes them", IT, "X=np.random.default_rng(0).normal(size=(9,2)); a=T.dcov(X)[0]; b=T.dcov(X+1e6)[0]; assert np.allclose(a,b,rtol=1e-5)"),
 ("C15a", "C15", "medil/independence_testing.py", [('    gr = rankdata(-y, method="average") / n', '    gr = 1 - fr + 1 / n if len(set(y)) > n // 2 else rankdata(-y, method="min") / n')], "heavily tied y", "ranks of -y use another treatment of ties for few distinct values", IT, "import scipy.stats as ss\nr=np.random.default_rng(0)\nfor _ in range(60):\n    x=r.normal(size=12); y=r.integers(0,3,12)*1.\n    if len(set(y))<2: continue\n    fr=ss.rankdata(y)/12; g=ss.rankdata(-y)/12; w=1-np.abs(np.diff(fr[np.argsort(x)])).sum()/24/np.mean(g*(1-g)); assert abs(T.xicorr(x,y)[0]-w)<1e-9"),
 ("C15b", "C15", "medil/independence_testing.py", [("        ci = np.mean(ind2 * qfr) / n", "        ci = np.mean(ind2 * fr) / n")], "y not already in increasing order", "a moment of the variance uses unsorted ranks", IT, "r=np.random.default_rng(0); x=r.normal(size=20); y=r.normal(size=20)\np=r.permutation(20); assert abs(T.xicorr(x,y)[1]-T.xicorr(x[p],y[p])[1])<1e-9"),
 ("C16a", "C16", "medil/evaluate.py", [("    true_biadj = true_biadj.astype(int)", "    true_biadj = true_biadj.astype(np.int8)")], "two measurements sharing more than 127 latents", "shared-latent counts overflow", EV, "a=np.ones((300,2),bool); b=np.ones((1,2),bool); assert E.sfd(b,a)[0]==4*299**2 and E.sfd(a,b)[0]==4*299**2"),
 ("C16b", "C16", "medil/evaluate.py", [("    ug = biadj_mat.T @ biadj_mat\n", "    ug = (biadj_mat.T.astype(int) @ biadj_mat.astype(int)) % 3 != 0\n")], "a pair sharing exactly three latents", "pairs sharing a multiple of three latents are not joined", EV, "a=np.ones((3,3),bool); assert E.recover_ug(a)[0,1]"),
 ("C17a", "C17", "medil/evaluate.py", [("        return np.sum((np.abs(predicted_W[perm]) - np.abs(true_W)) ** 2)", "        return np.sum(np.abs(np.abs(predicted_W[perm]) - np.abs(true_W)) ** 2 * (predicted_W[perm] != 0))")], "a predicted weight that is exactly zero", "entries with a zero predicted weight do not count", EV, "p=np.array([[0.,1],[2,3]]); t=np.array([[1.,1],[2,3]]); assert E.min_perm_squared_l2_dist_abs(p,t)[1]==1"),
 ("C17b", "C17", "medil/evaluate.py", [("    perms = itertools.permutations(range(len(predicted_W)))\n\n    pairs = map(pair, perms)", "    perms = itertools.islice(itertools.permutations(range(len(predicted_W))), 5040)\n\n    pairs = map(pair, perms)", 0)], "eight or more predicted latents", "only the first 5040 permutations are tried", EV, "P=np.eye(8); p,d=E.min_perm_squared_l2_dist(P[::-1].copy(),P); assert d==0"),
 ("C18a", "C18", "medil/independence_testing.py", [("        p_vals = method\n", "        p_vals = method\n        np.fill_diagonal(p_vals, 0)\n")], "a supplied p-value matrix with a nonzero diagonal", "the supplied p-values are modified", IT, "P=np.full((3,3),.5); Q=P.copy(); T.estimate_UDG(np.zeros((4,3)),P); assert (P==Q).all()"),
 ("C18b", "C18", "medil/ecc_algorithms.py", [("    num_meas = len(graph)\n", "    num_meas = len(graph)\n    np.fill_diagonal(graph, True)\n")], "a graph without its diagonal", "the given graph's diagonal is set", EA, "A=np.zeros((3,3),bool); A[0,1]=A[1,0]=True; B=A.copy(); find_heuristic_1pc(A); assert (A==B).all()"),
 ("C18c", "C18", "medil/evaluate.py", [("    zeros = np.zeros_like(predicted_W)\n    num_latents = len(true_W)\n    zeros[:num_latents] = true_W\n    true_W = zeros\n", "    zeros = np.zeros_like(predicted_W)\n    num_latents = len(true_W)\n    if num_latents == len(predicted_W):\n        zeros = np.abs(true_W, out=true_W)\n    else:\n        zeros[:num_latents] = true_W\n    true_W = zeros\n", 1)], "as many true as predicted latents and a negative weight", "the true weights are replaced by their absolute values", EV, "P=-np.eye(2); W=-np.eye(2); E.min_perm_squared_l2_dist_abs(P,W); assert (W==-np.eye(2)).all()"),
 ("C19a", "C19", "medil/vae.py", [("        return nn.functional.linear(input, self.weight * self.mask, self.bias)", "        if not self.training:\n            return nn.functional.linear(input, self.weight, self.bias)\n        return nn.functional.linear(input, self.weight * self.mask, self.bias)")], "evaluation mode", "the masks are not applied in evaluation mode", NET, "torch.manual_seed(0); m=V.VariationalAutoencoder(2,3,1,2).eval(); d=m.decoder; z=torch.randn(1,2); a=d(z)[0]\nh=d.mean_linear_fulcon.register_forward_hook(lambda q,i,o: torch.cat([o[:,:2]+1,o[:,2:]],1)); b=d(z)[0]; assert torch.allclose(a[:,1:],b[:,1:])"),
 ("C19b", "C19", "medil/vae.py", [("        hidden_mask = torch.block_diag(*hidden_blocks)", "        hidden_mask = torch.block_diag(*hidden_blocks) if width_per_meas < 3 else torch.tril(torch.ones(num_meas * width_per_meas, num_meas * width_per_meas))")], "a block width of three or more and a hidden layer", "wide hidden layers mix the blocks", NET, "torch.manual_seed(0); m=V.VariationalAutoencoder(2,3,1,3).eval(); d=m.decoder; z=torch.randn(1,2); a=d(z)[0]\nh=d.mean_linear_fulcon.register_forward_hook(lambda q,i,o: torch.cat([o[:,:3]+1,o[:,3:]],1)); b=d(z)[0]; assert torch.allclose(a[:,1:],b[:,1:])"),
 ("C20a", "C20", "medil/vae.py", [("            eps = torch.empty_like(std).normal_()", "            eps = torch.empty_like(std[:1]).normal_()")], "a batch of two or more observations", "all observations of a batch share the noise", NET, "torch.manual_seed(0); m=V.VariationalAutoencoder(2,3,1,1).train(); mu=torch.zeros(5,2); s=m.latent_sample(mu,mu); assert not torch.equal(s[0],s[1])"),
 ("C20b", "C20", "medil/vae.py", [("            std = logvar.mul(0.5).exp_()", "            std = logvar.clamp(max=4).mul(0.5).exp_()")], "an encoded log-variance above four", "large standard deviations are capped", NET, "torch.manual_seed(0); m=V.VariationalAutoencoder(2,3,1,1).train(); mu=torch.zeros(4000,1); s=m.latent_sample(mu,mu+8); assert 45<s.std()<65"),
 ("C21a", "C21", "medil/models.py", [("        cov = cov.mean(axis=0)\n\n        diff = x - x_recon\n        recon_loss", "        cov = cov[0]\n\n        diff = x - x_recon\n        recon_loss")], "a batch of two or more observations with different log-variances", "the covariance is the first observation's instead of the batch average", NET, "f=M.NeuroCausalFactorAnalysis(path='t'); torch.manual_seed(0); R=lambda *s: torch.randn(*s,dtype=torch.float64)\nx,y,c,mu,lv=R(4,3),R(4,3),R(4,3),R(4,2),R(4,2); v=c.exp().mean(0); w=.5*(lv.exp()+mu**2-1-lv).sum()+.5*(4*v.log().sum()+((x-y)**2/v).sum()); assert abs(f._elbo_gaussian(x,y,c,mu,lv,None,1)-w)<1e-8"),
 ("C21b", "C21", "medil/models.py", [("            return -loss + llambda * weight.norm(\"nuc\") + mu * weight.norm(1)", "            return -loss + mu * weight.norm(\"nuc\") + llambda * weight.norm(1)")], "different penalties", "the two penalties are swapped", NET, "f=M.NeuroCausalFactorAnalysis(path='t'); f.hyperparams.update({'lambda':1.,'mu':0.}); z=torch.zeros(1,1,dtype=torch.float64); W=torch.ones(2,2,dtype=torch.float64); assert abs((f._elbo_gaussian(z,z,z,z,z,W,1)-f._elbo_gaussian(z,z,z,z,z,None,1))-2)<1e-9"),
 ("C22a", "C22", "medil/models.py", [("                optimizer.zero_grad()\n", "                if nbatch == 0:\n                    optimizer.zero_grad()\n")], "two or more training batches per epoch", "gradients accumulate over the batches of an epoch", NET, "class O(torch.optim.AdamW):\n    n=0; g=[]\n    def step(self,*a,**k):\n        O.g.append([p.grad.clone() for gr in self.param_groups for p in gr['params']]); return None\ntorch.optim.AdamW=O; torch.manual_seed(0); f=M.NeuroCausalFactorAnalysis(path='t'); f.hyperparams.update(num_epochs=1,batch_size=5)\nold=M.VariationalAutoencoder.latent_sample; M.VariationalAutoencoder.latent_sample=lambda s,mu,lv: mu\nX=np.tile(np.random.default_rng(0).normal(size=(5,3)),(4,1)); f.fit(X,[np.arange(10),np.arange(10,20)]); assert all(torch.allclose(a,b,atol=1e-5) for a,b in zip(*O.g))"),
 ("C22b", "C22", "medil/models.py", [("            with torch.no_grad():\n                batch_size = x_batch.shape[0]", "            with torch.no_grad():\n                batch_size = self.hyperparams[\"batch_size\"]")], "a validation batch smaller than the batch size", "validation losses are divided by the nominal batch size", NET, "torch.manual_seed(0); f=M.NeuroCausalFactorAnalysis(path='t'); f.hyperparams.update(num_epochs=1,batch_size=128); X=np.random.default_rng(0).normal(size=(12,3)); f.fit(X,[np.arange(8),np.arange(8,12)]); m=f.parameters.vae.eval(); Z=torch.tensor(((X-X.mean(0))/X.std(0))[8:].astype('float32')); r=m(Z); assert abs(float(torch.linalg.norm(Z-r[0],ord=2))/4-f.loss['recon_valid'][0])<1e-4"),
 ("C22c", "C22", "medil/models.py", [("            dataset, batch_size=self.hyperparams[\"batch_size\"], shuffle=False", "            dataset, batch_size=self.hyperparams[\"batch_size\"], shuffle=False, drop_last=len(sample) > self.hyperparams[\"batch_size\"]")], "more observations than the batch size, and not a multiple of it", "the last, partial batch is never visited", NET, "seen=[]\nh=torch.nn.modules.module.register_module_forward_pre_hook(lambda m,i: seen.append(len(i[0])) if isinstance(m,V.VariationalAutoencoder) else None)\nf=M.NeuroCausalFactorAnalysis(path='t'); f.hyperparams.update(num_epochs=1,batch_size=4); f.fit(np.random.default_rng(0).normal(size=(13,3)),[np.arange(10),np.arange(10,13)]); assert sum(seen)==13, seen"),
 ("C23a", "C23", "medil/models.py", [("            loss += lambda_reg * self.rho(W)\n            # L1 norm for the second penalty function\n            loss += mu_reg * self.sigma(W)", "            loss += mu_reg * self.rho(W)\n            # L1 norm for the second penalty function\n            loss += lambda_reg * self.sigma(W)")], "different penalties", "the penalties of the least squares objective are swapped", MOD, "X=np.random.default_rng(0).normal(size=(20,2))\nrec=[]; old=M.minimize\ndef m(f,x,**k): rec.append(f); return old(f,x,**k)\nM.minimize=m; d=M.DevMedil(rng=np.random.default_rng(0)); d.fit(X,'lse',1.,0.); x=np.array([1.,0,0,2,1,1]); S=np.cov(X.T); W=np.diag([1.,2]); assert abs(rec[0](x)-(((S-W.T@W-np.eye(2))**2).sum()+3))<1e-8"),
 ("C23b", "C23", "medil/models.py", [("        return np.dot(L, W_hat) + epsilon", "        return np.dot(L, W_hat if method == \"mle\" else np.abs(W_hat)) + epsilon")], "a least squares fit with a negative weight", "samples of least squares fits use absolute weights", MOD, "d=M.DevMedil(rng=np.random.default_rng(0)); d.W_hat_lse=np.array([[1.,-1.],[0,0]]); d.D_hat_lse=np.eye(2)*.01; s=d.sample(4000,'lse'); assert np.corrcoef(s.T)[0,1]<-.9"),
 ("C24a", "C24", "medil/graph.py", [("        self.adj_matrix[v_1s, v_2s] = 0\n        self.adj_matrix[v_2s, v_1s] = 0\n        self.num_edges = np.triu(self.adj_matrix, 1).sum()", "        self.adj_matrix[v_1s, v_2s] = 0\n        self.adj_matrix[v_2s, v_1s] = 0\n        self.num_edges -= len(edges)")], "a covering that contains an edge covered before", "the count of uncovered edges is decremented for edges already covered", "from medil.graph import *", "A=np.ones((4,4),int); g=UndirectedDependenceGraph(A); g.make_aux(); h=g.reducible_copy()\nfor c in ([1,1,1,0],[0,1,1,1]):\n    h.the_cover=np.array([c]); h.cover_edges()\nassert h.num_edges==np.triu(h.adj_matrix,1).sum()"),
 ("C24b", "C24", "medil/graph.py", [("            edge for edge in rmed_edges_idx if edge in self.extant_edges_idx\n", "            edge for edge in rmed_edges_idx if edge in self.extant_edges_idx[1:]\n")], "a covering of the first listed edge", "the first uncovered edge is never taken off the list", "from medil.graph import *", "A=np.ones((3,3),int); g=UndirectedDependenceGraph(A); g.make_aux(); h=g.reducible_copy(); h.the_cover=np.array([[1,1,1]]); h.cover_edges(); assert len(h.extant_edges_idx)==0"),
 ("C25a", "C25", "medil/visualize.py", [("    dag_adj_mat[:num_latent, num_latent:] = biadj_mat\n", "    dag_adj_mat[:num_latent, num_latent:] = biadj_mat\n    if num_latent > num_obs:\n        dag_adj_mat[num_obs:num_latent, -1] = 0\n")], "more latents than measurements", "edges of surplus latents to the last measurement are lost", "from medil.visualize import get_dag_from_biadj", "b=np.ones((3,2)); d=get_dag_from_biadj(b); assert (d[:3,3:]==b).all()"),
 ("C01e", "C01", "medil/graph.py", [("        self.common_neighbors = udg.common_neighbors.copy()", "        self.common_neighbors = udg.common_neighbors")], "a search that backtracks: a branch that removes vertices fails and another is tried on the same graph", "a branch's removals change the neighbourhoods of the graph it started from", EA, COVER),
 ("C01f", "C01", "medil/graph.py", [("            self.common_neighbors[:, isolated_verts] = 0\n", "            self.common_neighbors[:, isolated_verts[:1]] = 0\n")], "two vertices removed at once that are common neighbours of an edge still uncovered", "only the first removed vertex leaves the common neighbourhoods", EA, COVER),
 ("C01g", "C01", "medil/graph.py", [("        clique_idxs = np.where(score[self.extant_edges_idx] == 0)[0]", "        clique_idxs = np.where(score[self.extant_edges_idx] <= (len(score) > 36))[0]")], "a graph with ten or more vertices and an edge in exactly two maximal cliques", "on larger graphs a neighbourhood missing one edge is taken for a clique", EA, COVER),
 ("C02d", "C02", "medil/ecc_algorithms.py", [("iteration=0, iteration_max=3)", "iteration=0, iteration_max=1)")], "a graph whose minimum cover needs two choices", "the search gives up after one choice and completes the cover greedily", EA, MINI7),
 ("C02e", "C02", "medil/ecc_algorithms.py", [("            k_num_cliques - 1,", "            k_num_cliques,")], "a graph on which a choice is made", "choosing a clique does not use up the bound", EA, MINI7),
 ("C04d", "C04", "medil/ecc_algorithms.py", [("    for indep_set in indep_sets:\n", "    for indep_set, _ in zip(indep_sets, range(num_meas)):\n")], "a graph with more maximal independent sets than vertices", "the search for a largest independent set is cut off", EA, PC.replace("1,9", "10,15").replace("800", "400").replace("<r.random()", "<r.uniform(.1,.4)")),
 ("C24e", "C24", "medil/graph.py", [("lambda edge_idx: (nbrhood(edge_idx).sum() - mask(edge_idx).sum()) // 2\n        )", "lambda edge_idx: (nbrhood(edge_idx).astype(np.int8).sum(dtype=np.int8) - mask(edge_idx).sum()) // 2\n        )")], "a common neighbourhood of more than eleven vertices", "the edges of large neighbourhoods are counted in eight bits", G, "A=np.ones((13,13),int); g=UndirectedDependenceGraph(A); g.make_aux(); assert (g.nbrhood_edge_counts==78).all()"),
 ("C24f", "C24", "medil/graph.py", [("        self.extant_edges_idx = np.delete(self.extant_edges_idx, idx_idx)", "        self.extant_edges_idx = np.delete(self.extant_edges_idx, idx_idx[: 4 * len(self.adj_matrix)])")], "a clique with more than four times as many edges as the graph has vertices", "edges beyond the first 4n of a clique stay listed as uncovered", G, "A=np.ones((12,12),int); g=UndirectedDependenceGraph(A); g.make_aux(); h=g.reducible_copy(); h.the_cover=np.array([[1]*12]); h.cover_edges(); assert len(h.extant_edges_idx)==0"),
]
