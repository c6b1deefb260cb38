"""Factories of each kind. Everything made records how it was made."""
LIST = [1, "a"]
NOT_CALLABLE = 12


class Rec:
    def __init__(self, how, params=None):
        self.how = how
        self.params = params


def make(params):
    return Rec("make", params)


def make_int(params):
    return params.integer("n")


def make_falsy(params):
    return []


class WithStatic(Rec):
    def __init__(self, how="direct", params=None):
        super().__init__(how, params)

    @staticmethod
    def from_parameters(params):
        return Rec("WithStatic", params)


class WithClassMethod(Rec):
    def __init__(self, a, b):
        super().__init__(a, b)

    @classmethod
    def from_parameters(cls, params):
        return cls("WithClassMethod", params)


class Inherits(WithClassMethod):
    pass


class Plain(Rec):
    def __init__(self):
        super().__init__("Plain")


class Callable_:
    def __call__(self, params):
        return Rec("instance", params)


INSTANCE = Callable_()


class Adorned_(Callable_):
    """Not a class itself when made: it is called, whatever attributes it has."""

    def from_parameters(self, params):
        return Rec("adorned", params)


ADORNED = Adorned_()


def adorned(params):
    return Rec("make", params)


adorned.from_parameters = ADORNED.from_parameters


def failing(params):
    raise KeyError("failing factory")
