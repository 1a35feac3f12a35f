f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(a for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y) for x in y)
