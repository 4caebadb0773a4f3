from units import *

def go():
    ck = Check("P26", "random operation histories of the vector map, the flag vector (also with several threads setting neighbouring flags), the id generator, the compactor and the result object, "
               "each mirrored in a mathematical model that is compared after every operation; sanitizers watch the memory; distinct = distinct histories")
    run_units(ck, "u_containers", ck.scale(12000, 400000))
    ck.finish()

if __name__ == "__main__": main(go)
