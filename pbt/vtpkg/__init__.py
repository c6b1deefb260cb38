"""A package for the expressions which C17 evaluates; imported only by them."""
CONST = 17


def flag():
    return False
