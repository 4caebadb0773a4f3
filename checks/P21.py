from units import *

def go():
    ck = Check("P21", "random matrices written and read back by every reader and writer (whole, row by row, after a seek, by workers' row ranges), text files in several number formats, "
               "stored clusters, and missing or short files; every value is compared bit by bit with what was stored; sanitizers watch the memory; distinct = distinct contents")
    run_units(ck, "u_readers", ck.scale(6000, 150000))
    ck.finish()

if __name__ == "__main__": main(go)
