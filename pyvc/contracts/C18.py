"""Frames: the contracts of the other properties, with only their frame conditions kept (the arguments have their old contents when the
call returns)."""
import importlib
from contracts.common import *

TAKEN = {"C01": ["rule_1", "rule_2[first]", "rule_2", "rule_3[first]", "rule_3", "choose_nbrhood", "reduzieren", "branch[first]", "branch", "reconstruct_cover", "reconstruct_cover[none removed]", "find_clique_min_cover[edges, i]", "find_clique_min_cover[edges, b]", "find_clique_min_cover[no edges, i]", "find_clique_min_cover[no edges, b]"],
         "C03": ["max_cliques[b]", "max_cliques[i]"], "C04": ["find_heuristic_1pc[b]", "find_heuristic_1pc[i]"], "C08": ["mcm[given structure]"], "C10": ["GaussianMCM.sample"],
         "C11": ["GaussianMCM.fit[structure given]", "GaussianMCM.fit[graph given]", "GaussianMCM.fit[none given]"], "C12": ["GaussianMCM._estimate_udg"],
         "C13": ["estimate_UDG[xicor]", "estimate_UDG[dcov_big]", "estimate_UDG[p-values]", "estimate_UDG[dcov_fast]", "estimate_UDG[default]"], "C14": ["dcov"],
         "C15": ["xicorr[ties]", "xicorr[default]", "xicorr[no ties]"], "C16": ["recover_ug[b]", "recover_ug[i]", "sfd[bb]", "sfd[bi]", "sfd[ib]", "sfd[ii]"],
         "C17": ["min_perm_squared_l2_dist", "min_perm_squared_l2_dist_abs"], "C22": ["fit[split given]", "fit[random split]"],
         "C23": ["DevMedil.fit[mle, direct, general]", "DevMedil.fit[lse, direct, general]", "DevMedil.fit[mle, default]", "DevMedil.validation_mle", "DevMedil.validation_lse", "DevMedil.sample[mle]", "DevMedil.sample[lse]"],
         "C24": ["make_aux[int]", "make_aux[bool]", "cover_edges[edges]", "cover_edges[clique]", "cover_edges[clique, bool]"], "C25": ["get_dag_from_biadj[b]", "get_dag_from_biadj[i]", "get_dag_from_biadj[f]"]}

def framed(g):
    def run(ip):
        try: g.run(ip)
        finally:
            c = cx(); c.obligs[:] = [o for o in c.obligs if o.kind == "frame"]
    return run

def goals():
    out = []
    for m, names in TAKEN.items():
        for g in importlib.import_module("contracts." + m).goals():
            if g.name in names: out.append(Goal(f"{m}.{g.name}", framed(g), g.opts))
    return out
