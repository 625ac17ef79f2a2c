"""Builds models of the code under test from generated parameters."""
from bicycleparameters.models import (
    Meijaard2007Model, Meijaard2007WithFeedbackModel, MooreRiderLean2012Model)
from bicycleparameters.parameter_sets import (
    Meijaard2007ParameterSet, Meijaard2007WithFeedbackParameterSet,
    MooreRiderLean2012ParameterSet)
from . import again, gen

KINDS = ['whipple', 'feedback', 'riderlean']


def params(kind, rng, profile=None):
    if kind == 'riderlean':
        return gen.riderlean_par(rng)
    if profile is None:
        profile = rng.choice(['ordinary', 'wide', 'aligned', 'equalwheels'])
    if kind == 'whipple':
        p = gen.whipple_par(rng, profile)
    else:
        p = gen.feedback_par(rng, profile=profile)
    p.pop('_profile')
    return p


def build(kind, p):
    p = dict(p)
    return again.obj(kind, lambda: new(kind, p), again.edited(p))


def new(kind, p):
    if kind == 'whipple':
        return Meijaard2007Model(Meijaard2007ParameterSet(p, True))
    if kind == 'feedback':
        return Meijaard2007WithFeedbackModel(
            Meijaard2007WithFeedbackParameterSet(p, True))
    return MooreRiderLean2012Model(MooreRiderLean2012ParameterSet(p))


def make(kind, rng, profile=None):
    p = params(kind, rng, profile)
    return build(kind, p), p
