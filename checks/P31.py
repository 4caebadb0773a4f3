from units import *

def go():
    ck = Check("P31", "random clusterings put into result objects by every constructor, from arrays and from maps with gaps, compared with a model, with copies, with objects that differ in one value, "
               "and with the file they write; sanitizers watch the memory; distinct = distinct clusterings")
    run_units(ck, "u_types", ck.scale(8000, 160000))
    ck.finish()

if __name__ == "__main__": main(go)
