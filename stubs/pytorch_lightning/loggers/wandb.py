from .. import _WandbLogger as WandbLogger
