(*a) = b
