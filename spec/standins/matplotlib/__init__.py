def use(backend, force=True):
    pass
