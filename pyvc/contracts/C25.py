from contracts.common import *

def export(dt):
    def run(ip):
        L, n = size("L"), size("n")
        biadj = int01("biadj", (L, n), dt); fr = Frame(biadj_mat=biadj)
        r = returns(ip, lambda: call(ip, "visualize", "get_dag_from_biadj", biadj))
        if shape_is("dag", r, (L + n, L + n)):
            b = biadj.fn()
            entries("dag[i,j] is the structure's edge from latent i to measurement j-L, and nothing else", r,
                    lambda i, j: z3.And(i < L, j >= L, tobool(b(i, j - L))) if r.dtype == "b" else z3.If(z3.And(i < L, j >= L, tobool(b(i, j - L))), 1, 0))
        fr.check()
    return run

def goals(): return [Goal(f"get_dag_from_biadj[{d}]", export(d)) for d in "bif"]
