from pytorch_lightning.loggers import WandbLogger
