f"{*a,}"
