[defaults]
