é = 1
