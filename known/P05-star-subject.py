match *x:
    case 1: pass
