import knorv, hier

RULE = ("random data sets (nested clusters, blobs and other kinds), maxima, minimum sizes, tolerances, iteration limits and threads; the reported clusters are matched against an independently computed tree of splits: "
        "every cluster must be a node, every split on the way must be one the algorithm makes@T@, every cluster left whole must be final, and centroids must be means; "
        "runs in which a tie or rounding decides are set aside; the test's statistic and critical values are also compared with an extended-precision computation on random samples; distinct = distinct results with more than one cluster that were judged")

def go(): hier.check("P18", "gmeans", RULE.replace("@T@", " and keeps by the Anderson-Darling test"), (4800, 60000))

if __name__ == "__main__": knorv.main(go)
