class Figure:
    def __init__(self, data=(), **k):
        self.data = list(data)

    def update_layout(self, **k):
        pass


def Scatter(**k):
    return k
