"""Stand-in for PyTorch Lightning (not installed here): one process, one device.

The trainer keeps Lightning's contract as far as the projects use it: optimiser steps count as
global steps, a checkpoint holds the module's state, the optimisers, the schedules and the loop
position, ``last.ckpt`` appears atomically, logged metric objects are computed and reset at the end
of their epoch, and a restored run continues at the batch after the checkpoint.  Every batch is
preceded by reseeding from its position, so that the randomness of a batch is that of its position.
"""
import os
import random
from pathlib import Path

import numpy as np
import torch

HOOKS = {"step": lambda *a: None, "start": lambda *a: None, "log": lambda *a: None, "image": lambda *a: None}


def seed_everything(seed, workers=False):
    random.seed(seed)
    np.random.seed(seed % (2**32))
    torch.manual_seed(seed)
    return seed


class Callback:
    def on_validation_end(self, trainer, pl_module):
        pass

    def on_train_epoch_end(self, trainer, pl_module):
        pass


class LightningDataModule:
    def prepare_data(self):
        pass

    def setup(self, stage=None):
        pass


class _Opt:
    def __init__(self, trainer, opt):
        self.__dict__.update(trainer=trainer, optimizer=opt)

    def step(self, *a, **k):
        out = self.optimizer.step(*a, **k)
        self.trainer.global_step += 1
        return out

    def __getattr__(self, k):
        return getattr(self.optimizer, k)


class LightningModule(torch.nn.Module):
    automatic_optimization = True

    def __init__(self):
        super().__init__()
        self.__dict__["trainer"] = None

    @property
    def global_step(self):
        return self.trainer.global_step if self.trainer else 0

    @property
    def current_epoch(self):
        return self.trainer.current_epoch if self.trainer else 0

    @property
    def global_rank(self):
        return 0

    @property
    def logger(self):
        return self.trainer.logger if self.trainer else None

    def print(self, *a, **k):
        print(*a, **k)

    def toggle_optimizer(self, opt, *a):
        """Only the parameters of this optimiser require gradients until untoggle_optimizer."""
        mine = {id(p) for g in opt.param_groups for p in g["params"]}
        state = {}
        for o in self.trainer.opts:
            for g in o.param_groups:
                for p in g["params"]:
                    if id(p) not in mine and p not in state:
                        state[p] = p.requires_grad
        for p in state:
            p.requires_grad_(False)
        self.__dict__["_toggled"] = state

    def untoggle_optimizer(self, opt, *a):
        for p, was in self.__dict__.pop("_toggled", {}).items():
            p.requires_grad_(was)

    @property
    def device(self):
        return next((p.device for p in self.parameters()), torch.device("cpu"))

    @property
    def dtype(self):
        return next((p.dtype for p in self.parameters()), torch.float32)

    def optimizers(self):
        o = self.trainer.wrapped
        return o[0] if len(o) == 1 else list(o)

    def lr_schedulers(self):
        s = self.trainer.schedulers
        return None if not s else (s[0] if len(s) == 1 else list(s))

    def manual_backward(self, loss, **k):
        self.on_before_backward(loss)
        loss.backward(**k)
        self.on_after_backward()

    def clip_gradients(self, opt, gradient_clip_val=None, gradient_clip_algorithm="norm"):
        params = [p for g in opt.param_groups for p in g["params"]]
        if gradient_clip_algorithm == "value":
            torch.nn.utils.clip_grad_value_(params, gradient_clip_val)
        else:
            torch.nn.utils.clip_grad_norm_(params, gradient_clip_val)

    def log(self, name, value, **k):
        self.trainer._log(name, value)

    def log_dict(self, d, **k):
        for n, v in d.items():
            self.log(n, v)

    def on_load_checkpoint(self, checkpoint):
        pass

    def on_save_checkpoint(self, checkpoint):
        pass

    def on_fit_start(self, *a, **k):
        pass

    def on_fit_end(self, *a, **k):
        pass

    def on_train_start(self, *a, **k):
        pass

    def on_train_end(self, *a, **k):
        pass

    def on_train_batch_start(self, *a, **k):
        pass

    def on_train_batch_end(self, *a, **k):
        pass

    def on_validation_start(self, *a, **k):
        pass

    def on_validation_end(self, *a, **k):
        pass

    def on_validation_batch_start(self, *a, **k):
        pass

    def on_validation_batch_end(self, *a, **k):
        pass

    def on_test_start(self, *a, **k):
        pass

    def on_test_end(self, *a, **k):
        pass

    def on_test_batch_start(self, *a, **k):
        pass

    def on_test_batch_end(self, *a, **k):
        pass

    def on_before_zero_grad(self, *a, **k):
        pass

    def on_before_backward(self, *a, **k):
        pass

    def on_after_backward(self, *a, **k):
        pass

    def on_before_optimizer_step(self, *a, **k):
        pass

    def on_train_epoch_start(self):
        pass

    def on_train_epoch_end(self):
        pass

    def on_validation_epoch_start(self):
        pass

    def on_validation_epoch_end(self):
        pass

    def on_test_epoch_start(self):
        pass

    def on_test_epoch_end(self):
        pass


def _num(x):
    return x.detach().clone() if isinstance(x, torch.Tensor) else x


class Trainer:
    seed = 1

    def __init__(self, max_steps=-1, max_epochs=None, logger=None, callbacks=(), resume_from_checkpoint=None,
                 val_check_interval=None, gradient_clip_val=None, num_sanity_val_steps=2, limit_val_batches=None, **k):
        self.max_steps, self.max_epochs, self.logger = max_steps, max_epochs, logger
        self.callbacks, self.resume = list(callbacks), resume_from_checkpoint
        self.val_every, self.clip, self.sanity, self.limit_val = val_check_interval, gradient_clip_val, num_sanity_val_steps, limit_val_batches
        self.global_step = 0
        self.current_epoch = 0
        self.batch = 0  # next batch inside the epoch
        self.seen = 0  # batches seen in all
        self.global_rank, self.is_global_zero, self.world_size, self.sanity_checking = 0, True, 1, False
        self.phase, self.metrics, self.train_metrics, self.scalars = "train", {}, {}, {}

    # ---- logging
    def _tag(self, name):
        stage = getattr(self, "stage", "")
        return f"{name}@{stage}" if stage else name

    def _log(self, name, value):
        if callable(getattr(value, "compute", None)):
            if self.phase == "train":  # the value of this step; the rest is reset at the end of the epoch
                HOOKS["log"]("train", self.seen, self._tag(name), _num(value._forward_cache))
                self.train_metrics[name] = value
            else:
                self.metrics[name] = value
        elif self.phase == "train":
            HOOKS["log"]("train", self.seen, self._tag(name), _num(value))
        else:
            self.scalars.setdefault(name, []).append(_num(value))

    def _flush(self, where, keep):
        for n, m in list(self.metrics.items()):
            if keep:
                HOOKS["log"](where, self.seen, self._tag(n), _num(m.compute()))
            m.reset()
        for n, vs in list(self.scalars.items()):
            if keep:
                HOOKS["log"](where, self.seen, self._tag(n), sum(vs) / len(vs))
        self.metrics, self.scalars = {}, {}

    # ---- checkpoints
    def dump(self, model):
        ck = dict(state_dict=model.state_dict(), optimizer_states=[o.state_dict() for o in self.opts],
                  lr_schedulers=[s.state_dict() for s in self.schedulers], global_step=self.global_step,
                  epoch=self.current_epoch, batch=self.batch, seen=self.seen)
        model.on_save_checkpoint(ck)
        return ck

    def restore(self, model, path):
        ck = torch.load(path, map_location="cpu")
        model.on_load_checkpoint(ck)
        model.load_state_dict(ck["state_dict"])
        for o, s in zip(self.opts, ck["optimizer_states"]):
            o.load_state_dict(s)
        for o, s in zip(self.schedulers, ck["lr_schedulers"]):
            o.load_state_dict(s)
        self.global_step, self.current_epoch, self.batch, self.seen = ck["global_step"], ck["epoch"], ck["batch"], ck["seen"]

    def _configure(self, model):
        conf = model.configure_optimizers()
        self.opts, self.schedulers, self.freq = [], [], []

        def sched(s):
            if s is not None:
                d = s if isinstance(s, dict) else {"scheduler": s}
                self.schedulers.append(d["scheduler"])
                self.freq.append((d.get("interval", "epoch"), d.get("frequency") or 1))

        if isinstance(conf, tuple):
            self.opts = list(conf[0])
            for s in conf[1]:
                sched(s)
        else:
            for d in conf if isinstance(conf, list) else [conf]:
                d = d if isinstance(d, dict) else {"optimizer": d}
                self.opts.append(d["optimizer"])
                sched(d.get("lr_scheduler"))
        self.wrapped = [_Opt(self, o) for o in self.opts]

    def _reseed(self, *pos):
        seed_everything((self.seed * 1000003 + sum((i + 1) * 7919 * p for i, p in enumerate(pos))) % (2**31))

    def _fetch(self, loader, tag, start):
        """The batches of a loader, the randomness of loading each being that of its position."""
        self._reseed(tag + 10, start)
        it = iter(loader)
        i = 0
        while True:
            self._reseed(tag, start + i)
            try:
                b = next(it)
            except StopIteration:
                return
            yield i, b
            i += 1

    # ---- loops
    def _validate(self, model, data, keep, limit=None):
        was = model.training
        model.eval()
        self.phase = "val"
        self.sanity_checking = not keep
        model.on_validation_start()
        model.on_validation_epoch_start()
        with torch.no_grad():
            for i, b in self._fetch(data.val_dataloader(), 6, self.seen):
                if limit is not None and i >= limit:
                    break
                self._reseed(3, self.seen, i)
                model.on_validation_batch_start(b, i)
                model.on_validation_batch_end(model.validation_step(b, i), b, i)
            model.on_validation_epoch_end()
            self._flush("val", keep)
            model.on_validation_end()
            if keep:
                for c in self.callbacks:
                    c.on_validation_end(self, model)
        self.phase, self.sanity_checking = "train", False
        model.train(was)

    def _done(self):
        return (0 <= self.max_steps <= self.global_step) or (self.max_epochs is not None and self.current_epoch >= self.max_epochs)

    def fit(self, model, ckpt_path=None, datamodule=None):
        model.__dict__["trainer"] = self
        self.stage = getattr(model, "training_stage", "")
        datamodule.prepare_data()
        datamodule.setup("fit")
        self._configure(model)
        path = ckpt_path or self.resume
        if path is not None:
            self.restore(model, path)
        HOOKS["start"](self, model)
        model.on_fit_start()
        model.train()
        if self.sanity and not self._done():
            self._validate(model, datamodule, False, self.sanity)
        model.on_train_start()
        while not self._done():
            self._reseed(1, self.current_epoch)
            model.on_train_epoch_start()
            for i, b in self._fetch(datamodule.train_dataloader(), 5, self.seen - self.batch):
                if i < self.batch:
                    continue
                self._reseed(2, self.seen)
                model.on_train_batch_start(b, i)
                out = model.training_step(b, i)
                loss = out["loss"] if isinstance(out, dict) else out
                if model.automatic_optimization and loss is not None:
                    self.opts[0].zero_grad()
                    model.manual_backward(loss)
                    if self.clip:
                        torch.nn.utils.clip_grad_norm_([p for g in self.opts[0].param_groups for p in g["params"]], self.clip)
                    self.opts[0].step()
                    self.global_step += 1
                    for s, (interval, every) in zip(self.schedulers, self.freq):
                        if interval == "step" and self.global_step % every == 0:
                            s.step()
                model.on_train_batch_end(out, b, i)
                self.batch, self.seen = i + 1, self.seen + 1
                HOOKS["log"]("lr", self.seen, self._tag("lr"), [g["lr"] for o in self.opts for g in o.param_groups])
                HOOKS["step"](self, model)
                if self.val_every and self.seen % self.val_every == 0:
                    self._validate(model, datamodule, True, self.limit_val)
                for c in self.callbacks:
                    if hasattr(c, "on_batch"):
                        c.on_batch(self, model)
                if self._done():
                    break
            else:
                self.current_epoch, self.batch = self.current_epoch + 1, 0
                for m in self.train_metrics.values():
                    m.reset()
                self.train_metrics = {}
                model.on_train_epoch_end()
                for c in self.callbacks:
                    c.on_train_epoch_end(self, model)
        for c in self.callbacks:
            if hasattr(c, "on_batch"):
                c.on_batch(self, model, True)
        model.on_train_end()
        model.on_fit_end()

    def test(self, model, dataloaders=None, datamodule=None):
        model.__dict__["trainer"] = self
        loaders = dataloaders if dataloaders is not None else [datamodule.test_dataloader()]
        was = model.training
        model.eval()
        self.phase = "test"
        model.on_test_start()
        model.on_test_epoch_start()
        with torch.no_grad():
            for l in loaders:
                for i, b in self._fetch(l, 7, 0):
                    self._reseed(4, i)
                    model.on_test_batch_start(b, i)
                    model.on_test_batch_end(model.test_step(b, i), b, i)
            model.on_test_epoch_end()
            self._flush("test", True)
            model.on_test_end()
        self.phase = "train"
        model.train(was)


class _ModelCheckpoint(Callback):
    def __init__(self, dirpath=None, save_last=True, every_n_train_steps=1, **k):
        self.dir, self.every = Path(dirpath), every_n_train_steps or 1

    def on_batch(self, trainer, model, final=False):
        if not final and trainer.seen % self.every:
            return
        os.makedirs(self.dir, exist_ok=True)
        ck = trainer.dump(model)
        for name in ((f"step={trainer.seen}.ckpt",) if trainer.seen % (2 * self.every) == 0 else ()) + ("last.ckpt",):
            tmp = self.dir / (name + ".part")
            with open(tmp, "wb") as f:
                torch.save(ck, f)
            os.replace(tmp, self.dir / name)


class _Experiment:
    def log(self, d):
        HOOKS["image"](d)


class _WandbLogger:
    def __init__(self, **k):
        self.experiment = _Experiment()
