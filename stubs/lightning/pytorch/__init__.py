"""Stand-in for lightning.pytorch (not installed here): see stubs/pytorch_lightning."""
from pytorch_lightning import *  # noqa
from pytorch_lightning import Callback, LightningDataModule, LightningModule, Trainer, seed_everything
