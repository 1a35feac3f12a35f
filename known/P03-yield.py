f"{yield}"
