class LaplaceMechanism:
    def __init__(self, *args, **kwargs):
        pass
