from .. import Callback
from .. import _ModelCheckpoint as ModelCheckpoint


class LearningRateMonitor(Callback):
    def __init__(self, **k):
        pass
