"""Shared helpers that run the code under test (import after env.load())."""
import numpy as np
import pandas as pd

from mc import ref, specs


def inputs(model, df):
    from skillmodels import get_maximization_inputs

    return get_maximization_inputs(model, df)


def as_dict(params):
    return dict(zip(list(params.index), params["value"].to_numpy(dtype=float)))


def params_for(model_or_ref, variant=0):
    """Generic params frame indexed by the reference's labels of a model."""
    r = model_or_ref if isinstance(model_or_ref, ref.Ref) else ref.Ref(model_or_ref)
    idx = pd.MultiIndex.from_tuples(r.labels(), names=["category", "period", "name1", "name2"])
    return specs.make_params(idx, variant)


def template_index(model, df):
    return inputs(model, df)["params_template"].index
