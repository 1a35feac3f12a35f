match x:
    case *a: pass
