from . import diffract, motion, formulas, crystal, detect, effects, render, drawn, caller, storage, templates, refusals, meshing, clip, helpers
