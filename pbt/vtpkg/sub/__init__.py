NAME = "sub"
EMPTY = ""
