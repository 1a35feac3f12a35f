"\N{EN DASH}"
