match x:
    case {a: 1}: pass
