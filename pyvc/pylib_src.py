# Instrumented like the code under verification.


def product(*its):
    if len(its) == 1:
        for x in its[0]:
            yield (x,)
    elif len(its) == 2:
        for x in its[0]:
            for y in its[1]:
                yield (x, y)
    else:
        for x in its[0]:
            for y in its[1]:
                for z in its[2]:
                    yield (x, y, z)


def repeat(x, n):
    return [x]*n
