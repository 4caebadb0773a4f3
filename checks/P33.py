from units import *

def go():
    ck = Check("P33", "random histories of pruned distances, activations (also recorded by several threads) and row activity, merged over threads and iterations and compared with a model: counts, sums, percentages, per-iteration "
               "totals and the files written; sanitizers watch the memory; distinct = distinct histories")
    run_units(ck, "u_prune", ck.scale(6000, 120000))
    ck.finish()

if __name__ == "__main__": main(go)
