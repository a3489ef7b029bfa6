import json,subprocess
L=[("C01","dd62af9","increments whose Newton iteration failed (last attempt of a stopped run) were stored as results and became the start and the held load of the next step"),
("C01","6b90e2b","with loose xtol or tiny steps the linear prediction was accepted without updating x: recorded U and load factor did not belong together and the run stood still"),
("C20","1e039fc","adapted step width overshot maxfac (factor 4.6 with maxfac 4) and undershot minfac"),
("C12","75c8c34","float properties assigned after creating elements with integer properties were truncated"),
("C13","bbc0471","deleting an element left its element type and material type behind, shifting the types of all later elements"),
("C15","b8bf978","a given initial control component made the run fail at log level 2 (string + int)"),
("C02","aee1f03","rred of recorded increments was stale (zeros) and g had shape (ndof,)"),
("C07","c46c000","the stress at the beginning of an increment was never stored (always zero)"),
("C05","de004a5","building a model without any external force raised"),
("C12","8e658c0","numpy arrays as material or geometric properties of an element raised (ambiguous truth value)"),
("C01","bc577a9","after a failed increment the working state of the failed attempt was the start of the next step"),
("C17","a474114","model plots of models with non-consecutive node labels raised or connected wrong nodes"),
("C16","ca9b65d","history plots started with an additional zero increment"),
("C18","e58c234","movies of more than 999 increments had their frames in wrong order"),
("C15","acf5bf3","standard output stayed redirected if a run with a log file failed"),
("C17","e1820be","plotting nodes, elements or external forces of a model always raised"),
("C02","af5c9fe","stretch of the undeformed state was recorded as zero"),
("C07","c747006","a diverging or singular increment (NaN) ended the run with a ValueError instead of the error notice"),
("C13","37e1d43","after deleting the only boundary or element, adding new entries raised or broke the table"),
("C14","7223ca0","entries filled in by build() stayed in the definition: adding a boundary or force or deleting a node and building again failed"),
("C12","94ba0cf","adding elements with property lists of different length raised"),
("C07","ca12846","a run with a singular stiffness matrix of certain structure (perfectly plastic bars) ended with a RuntimeError of the sparse solver instead of the error notice"),
("C21","717f62c","the wall time of build and run was printed as cpu time and the cpu time as wall time"),
("C22","34f0aa8","pathfollow with adaptive control failed if the limits of all components were given as a list, as documented"),
("C22","f269546","pathfollow failed for a start vector of integers (limits truncated to zero)"),
("C22","5d4610c","a given initial control component was ignored unless it was locked: a path could not be started in the opposite direction"),
("C12","4dc881e","assigning materials, geometries or types to a numpy array of element labels (such as the labels of the table itself) raised"),
("C18","1168134","a movie of a numpy array of increments raised"),
("C16","2c1408c","a path plot along a numpy array of node labels raised"),
("C07","730b2e7","a run with one Newton iteration per increment (nfev 1) raised instead of stopping with a notice"),
("C23","c79c31d","a bar with an unknown material type silently used the material law of the bar evaluated before it"),
("C23","ab238cd","two bars with the same label were solved as two copies of the first one"),
("C23","d0bd50e","an entry of a wrong size was refused with an error but left its label in the table"),
("C23","02c01e0","two nodes with the same label were accepted if the tables of supports and forces had two entries for it as well"),
("C23","ebb4db1","supports with two instead of three values were applied to the directions of other nodes"),
]
out=[]
for p,c,w in L:
    subprocess.check_call(["git","-C","/repo","cat-file","-e",c])
    out.append({"status":"fixed","property":p,"entry":"fixed: property=%s %s %s"%(p,c,w)})
json.dump(out,open('/verif/known_findings.json','w'),indent=1)
