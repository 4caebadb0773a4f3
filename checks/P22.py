from units import *

def go():
    ck = Check("P22", "random histories of operations on plain, pruned, two-way and sparse accumulators, mirrored in an extended-precision model that also keeps the members; "
               "the whole state is compared after every operation; sanitizers watch the memory; distinct = distinct histories")
    run_units(ck, "u_clusters", ck.scale(4000, 100000))
    ck.finish()

if __name__ == "__main__": main(go)
