VALUE = ["hidden"]


def make(**kw):
    return kw
