CLAIMED = ["C%02d" % i for i in range(1, 33)]
for i in ["C15", "C16", "C17", "C18", "C27", "C28", "C30", "C31"]:
    TECH[i] = H
TECH["C11"] = H + "; and " + G
for i in ["C20", "C21", "C22", "C23", "C26", "C32"]:
    TECH[i] = X
