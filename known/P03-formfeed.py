if a:
  b
c
