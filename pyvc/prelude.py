"""Library functions given by their definition in Python (interpreted)."""


def iter_until(function, sentinel):
    while True:
        value = function()
        if value is sentinel or value == sentinel:
            return
        yield value


def values_of(it):
    while True:
        try:
            x = it.__next__()
        except StopIteration:
            return
        yield x
