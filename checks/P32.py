from units import *

def go():
    ck = Check("P32", "random ranges, seeds, process counts and lengths; the draws of every process of a split stream, taken in any order of the processes, are compared with the undivided stream, and streams begun "
               "further on with the stream begun at the start; ranges are watched; sanitizers watch the memory; distinct = distinct streams")
    run_units(ck, "u_streams", ck.scale(6000, 200000))
    ck.finish()

if __name__ == "__main__": main(go)
