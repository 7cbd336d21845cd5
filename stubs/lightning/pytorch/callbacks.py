from pytorch_lightning.callbacks import *  # noqa
from pytorch_lightning.callbacks import LearningRateMonitor, ModelCheckpoint
