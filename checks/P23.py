from units import *

def go():
    ck = Check("P23", "random vectors of all magnitudes (equal, opposite, parallel, zero, nearly equal) in up to 700 dimensions against the definitions in extended precision; random matrices, "
               "set and recomputed over several rounds of moving centroids, asked in both orders; pairs out of range in forked children; distinct = distinct inputs")
    run_units(ck, "u_dist", ck.scale(16000, 400000))
    ck.finish()

if __name__ == "__main__": main(go)
