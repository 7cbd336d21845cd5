class DDPStrategy:
    def __init__(self, **k):
        pass
