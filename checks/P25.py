from units import *

def go():
    ck = Check("P25", "random matrices (1x1 to 9x9, square up to 6x6 for determinants) and vectors of integers, reals and mixed magnitudes, random operation sequences; "
               "every result and every operand is compared with an extended-precision reference; sanitizers watch the memory; distinct = distinct operands and operations")
    run_units(ck, "u_linalg", ck.scale(40000, 1500000))
    ck.finish()

if __name__ == "__main__": main(go)
