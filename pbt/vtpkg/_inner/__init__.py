NAME = "inner"
