from units import *

def go():
    ck = Check("P24", "queues of all sizes around multiples of the task size, taken in whole or in part and reset; and the real task workers woken for many phases under injected delays, each recording the tasks it is given; "
               "the recorded tasks must tile the worker's rows in every phase; distinct = distinct cases")
    run_units(ck, "u_phases", ck.scale(4800, 40000), env=dict(U_MODE="tasks"), wrap=True, more=("perturb.cpp",))
    ck.finish()

if __name__ == "__main__": main(go)
